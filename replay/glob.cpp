// C20: global storages against a reference of what is initialised
// SOURCES: Basic.cpp GlobalStorage.cpp
#include <GlobalStorage.h>
#include "drv.h"
using namespace vl; using namespace drv;
static int inits[6], fins[6]; static bool live[6]; static int depth = 0;
static void ini(int i) { if (live[i]) fail(S("storage ", i, " initialised while initialised")); live[i] = true; inits[i]++; }
static void fin(int i) { if (!live[i]) fail(S("storage ", i, " finalised while not initialised")); live[i] = false; fins[i]++; }
EXTERN_GLOBAL_STORAGE_CLASS(S0) EXTERN_GLOBAL_STORAGE_CLASS(S1)
static void nested0() { if (++depth > 50) fail("initialisation of a storage that uses itself does not end"); GetS0(); depth--; }
static void nested1() { if (++depth > 50) fail("finalisation that finalises all storages does not end"); FinalizeGlobalStorage(); depth--; }
#define STO(n, a, b) BEGIN_GLOBAL_STORAGE_CLASS(S##n) int value; INITIALIZE_GLOBAL_STORAGE_CLASS ini(n); value = n + 100; a; FINALIZE_GLOBAL_STORAGE_CLASS fin(n); value = 0; b; END_GLOBAL_STORAGE_CLASS(S##n)
STO(0, nested0(), ) STO(1, , nested1()) STO(2, GetS1(), ) STO(3, , )
class SD : public GlobalStorage, private GlobalStorageDescriptor { public: int n; SD(int _n) :n(_n) { globalStorage = this; RegisterStorageDescriptor(this); } ~SD() { EnsureFinalized(); } protected: void InitializeResource() { ini(n); } void FinalizeResource() { fin(n); } };
int main(int argc, char** argv)
{
	init(argc, argv);
	SD* d4 = new SD(4); SD* d5 = new SD(5);
	if (d4->IsInitialized() || d5->IsInitialized()) fail("initialised before the first use");
	for (long k = 0; k < 200000 && more(); k++)
	{
		int before[6], fb[6]; bool lb[6]; memcpy(before, inits, sizeof inits); memcpy(fb, fins, sizeof fins); memcpy(lb, live, sizeof live);
		int op = (int)(rnd() % 9); trace.clear(); std::string st; for (int i = 0; i < 6; i++) st += live[i] ? '1' : '0'; log(S("initialised storages: ", st));
		log(S("operation ", op < 4 ? S("Get", op) : op < 6 ? S("EnsureInitialized ", op) : op == 6 ? std::string("EnsureFinalized 4") : std::string("FinalizeGlobalStorage")));
		switch (op)
		{
		case 0: check(GetS0().value == 100, "value"); break; case 1: check(GetS1().value == 101, "value"); break; case 2: check(GetS2().value == 102, "value"); break; case 3: check(GetS3().value == 103, "value"); break;
		case 4: d4->EnsureInitialized(); break; case 5: d5->EnsureInitialized(); break;
		case 6: d4->EnsureFinalized(); if (live[4] || d4->IsInitialized()) fail("EnsureFinalized"); break;
		default: FinalizeGlobalStorage(); for (int i = 0; i < 6; i++) { if (live[i]) fail(S("storage ", i, " not finalised")); if (fins[i] - fb[i] != (lb[i] ? 1 : 0)) fail(S("storage ", i, " finalised ", fins[i] - fb[i], " times")); }
		}
		if (op < 6 && (!live[op] || inits[op] - before[op] != (lb[op] ? 0 : 1))) fail(S("storage ", op, " initialised ", inits[op] - before[op], " times"));
		if (d4->IsInitialized() != live[4] || d5->IsInitialized() != live[5]) fail("IsInitialized");
		for (int i = 0; i < 6; i++) if (op < 6 && i != op && !(op == 2 && i == 1) && inits[i] != before[i]) fail("another storage initialised");
	}
	FinalizeGlobalStorage();
	return 0;
}
