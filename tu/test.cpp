#include <UnitTest/UnitTest.cpp>
#include <GlobalStorage.h>
#include "common.h"
using namespace vl; using namespace vl::unittest; using namespace vl::collections;
// test framework: bodies of categories, cases, files and asserted statements are known only by contract
extern "C" void user_body(); extern "C" bool user_cond(); extern "C" void user_statement(); extern "C" void user_check(const Exception&); 
OBJ(X, UnitTestContext) FIELD(X, parent, UnitTestContext) FIELD(X, indentation, UnitTestContext) FIELD(X, kind, UnitTestContext) FIELD(X, failed, UnitTestContext)
OBJ(L, UnitTestLink) FIELD(L, fileName, UnitTestLink) FIELD(L, testProc, UnitTestLink) FIELD(L, next, UnitTestLink)
OBJ(W, WString) OBJ(O, Array<WString>) MK(O, Array<WString>)
extern "C" UnitTestContext** g_ctx() { return &testContext; }
extern "C" UnitTestLink** g_head() { return &testHead; }
extern "C" UnitTestLink*** g_tail() { return &testTail; }
extern "C" vint* g_tf() { return &totalFiles; } extern "C" vint* g_pf() { return &passedFiles; }
extern "C" vint* g_tc() { return &totalCases; } extern "C" vint* g_pc() { return &passedCases; }
extern "C" bool* g_sup() { return &suppressFailure; }
extern "C" int k_File() { return (int)UnitTestContextKind::File; } extern "C" int k_Category() { return (int)UnitTestContextKind::Category; } extern "C" int k_Case() { return (int)UnitTestContextKind::Case; }
API(void, record, (const wchar_t* m), RecordFailure(m))
API(void, recordw, (const WString* m), RecordFailure(*m))
API(void, block, (const WString* d, bool cat), UnitTest::RunCategoryOrCase(*d, cat, Func<void()>(&user_body)))
API(void, legal, (), UnitTest::EnsureLegalToAssert())
API(void, print, (const WString* d, int k), UnitTest::PrintMessage(*d, (UnitTest::MessageKind)k))
API(void, add, (UnitTestLink* l), UnitTest::RegisterTestFile(l))
API(int, run, (const Array<WString>* o), UnitTest::RunAndDisposeTests(*o))
extern "C" void api_assert() { TEST_ASSERT(user_cond()); }
extern "C" void api_error() { TEST_ERROR(user_statement()); }
extern "C" void api_exception() { TEST_EXCEPTION(user_statement(), Exception, user_check); }
extern "C" void api_usererror() { throw Error(L""); }
extern "C" void api_userexception() { throw Exception(); }
extern "C" void api_userargument() { throw ArgumentException(); }
extern "C" void api_userint() { throw 1; }
extern "C" void api_userassert() { throw UnitTestAssertError(L""); }
extern "C" void api_userconfig() { throw UnitTestConfigError(L""); }
