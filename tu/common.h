// Opaque element types: every operation is an external function known only by its contract
// (contracts in vir/spec.py: constructor needs raw storage, destructor and every other
// operation need a live object, a moved-from object is live with an unspecified value).
#pragma once
#include <new>
#include <compare>
#define OPAQUE(T) \
	struct T { long v; T()noexcept; T(const T&)noexcept; T(T&&)noexcept; ~T()noexcept; \
	T& operator=(const T&)noexcept; T& operator=(T&&)noexcept; \
	bool operator==(const T&)const noexcept; std::strong_ordering operator<=>(const T&)const noexcept; };
OPAQUE(E)
OPAQUE(F)
// layout/construction helpers executed by the verifier (compiled with -fno-access-control)
#define OBJ(id, ...) \
	extern "C" unsigned long sz_##id() { return sizeof(__VA_ARGS__); } \
	extern "C" void dtor_##id(__VA_ARGS__* p) { using TT = __VA_ARGS__; p->~TT(); }
#define MK(id, ...) \
	extern "C" void mk_##id(__VA_ARGS__* p) { new(p) __VA_ARGS__(); }
#define FIELD(id, f, ...) \
	extern "C" void* fld_##id##_##f(__VA_ARGS__* p) { return (void*)&p->f; }
// entry points: one call of the public operation
#define API(ret, name, params, ...) extern "C" ret api_##name params { return __VA_ARGS__; }
