#include <GlobalStorage.cpp>
#include "common.h"
using namespace vl;
// global storages: the resource functions of the user are known only by contract
extern "C" void user_initialize(void*); extern "C" void user_finalize(void*);
BEGIN_GLOBAL_STORAGE_CLASS(Sto)
INITIALIZE_GLOBAL_STORAGE_CLASS
	user_initialize(static_cast<GlobalStorage*>(this));
FINALIZE_GLOBAL_STORAGE_CLASS
	user_finalize(static_cast<GlobalStorage*>(this));
END_GLOBAL_STORAGE_CLASS(Sto)
OBJ(S, Sto) FIELD(S, initialized, Sto) FIELD(S, globalStorage, Sto) FIELD(S, next, Sto) OBJ(D, GlobalStorageDescriptor) FIELD(D, globalStorage, GlobalStorageDescriptor) FIELD(D, next, GlobalStorageDescriptor)
extern "C" void mk_S(Sto* p) { new(p) Sto(); }
extern "C" GlobalStorage* up_S(Sto* p) { return p; }
extern "C" GlobalStorageDescriptor* dn_S(Sto* p) { return p; }
extern "C" GlobalStorageDescriptor** first_ptr() { return &firstGlobalStorageDescriptor; }
extern "C" GlobalStorageDescriptor*** last_ptr() { return &lastGlobalStorageDescriptor; }
API(void, make, (Sto* p), (void)new(p) Sto())
API(bool, is, (Sto* p), p->IsInitialized())
API(void, init, (Sto* p), p->EnsureInitialized())
API(void, fin, (Sto* p), p->EnsureFinalized())
API(void, drop, (Sto* p), p->~Sto())
API(Sto*, get, (), &GetSto())
API(void, finall, (), FinalizeGlobalStorage())
