// C25: random trees of files, categories, cases and assertions against a reference of the test framework
// SOURCES: Basic.cpp GlobalStorage.cpp Exception.cpp Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp UnitTest/UnitTest.cpp UnitTest/UnitTest.Linux.cpp
#include <UnitTest/UnitTest.h>
#include <Console.h>
#include "drv.h"
using namespace vl; using namespace vl::unittest; using namespace drv;
static std::vector<std::wstring> lines;
namespace vl { namespace console {
	void Console::Write(const wchar_t* s, vint n) { lines.push_back(std::wstring(s, n)); }
	void Console::Write(const wchar_t* s) { lines.push_back(s); }
	void Console::Write(const WString& s) { lines.push_back(s.Buffer()); }
	void Console::WriteLine(const WString& s) { lines.push_back(s.Buffer()); }
	WString Console::Read() { return L""; }
	void Console::SetColor(bool, bool, bool, bool) {}
	void Console::SetTitle(const WString&) {}
} }
enum Op { Cat, Case, CaseAssert, CaseAssertBad, AssertOk, AssertBad, ErrOk, ErrNone, ErrConfig, ErrOther, ExcOk, ExcDerived, ExcNone, ExcOther, ThrowErr, ThrowExc, ThrowArg, ThrowInt, Print, OPS };
static const char* names[] = { "TEST_CATEGORY", "TEST_CASE", "TEST_CASE_ASSERT(true)", "TEST_CASE_ASSERT(false)", "TEST_ASSERT(true)", "TEST_ASSERT(false)", "TEST_ERROR(throw Error)", "TEST_ERROR(nothing)", "TEST_ERROR(misplaced block)", "TEST_ERROR(throw int)", "TEST_EXCEPTION(throw Exception)", "TEST_EXCEPTION(throw ArgumentException)", "TEST_EXCEPTION(nothing)", "TEST_EXCEPTION(throw int)", "throw Error", "throw Exception", "throw ArgumentException", "throw int", "TEST_PRINT" };
struct Node { Op op; int id; std::vector<Node> sub; };
static std::vector<int> got, want; static int ids = 0; static long total, passed; static bool suppress;
static void T() { throw Error(L"e"); }
static void X() { throw Exception(L"x"); }
static void A() { throw ArgumentException(L"x", L"y", L"z"); }
static void J() { throw 42; }
static void nothing() {}
static void run(const std::vector<Node>& v)
{
	for (auto& n : v)
	{
		got.push_back(n.id);
		switch (n.op)
		{
		case Cat: TEST_CATEGORY(L"category") { got.push_back(-n.id); run(n.sub); }); break;
		case Case: TEST_CASE(L"case") { got.push_back(-n.id); run(n.sub); }); break;
		case CaseAssert: TEST_CASE_ASSERT((got.push_back(-n.id), true)); break;
		case CaseAssertBad: TEST_CASE_ASSERT((got.push_back(-n.id), false)); break;
		case AssertOk: TEST_ASSERT((got.push_back(-n.id), true)); break;
		case AssertBad: TEST_ASSERT((got.push_back(-n.id), false)); break;
		case ErrOk: TEST_ERROR(T()); break;
		case ErrNone: TEST_ERROR(nothing()); break;
		case ErrConfig: TEST_ERROR(UnitTest::RunCategoryOrCase(L"inner", false, []() {})); break;
		case ErrOther: TEST_ERROR(J()); break;
		case ExcOk: TEST_EXCEPTION(X(), Exception, [&](const Exception& e) { if (e.Message() != L"x") fail("exception given to the callback of TEST_EXCEPTION"); got.push_back(-n.id); }); break;
		case ExcDerived: TEST_EXCEPTION(A(), Exception, [&](const Exception& e) { if (e.Message() != L"x") fail("exception given to the callback of TEST_EXCEPTION"); got.push_back(-n.id); }); break;
		case ExcNone: TEST_EXCEPTION(nothing(), Exception, [&](const Exception&) { got.push_back(-n.id); }); break;
		case ExcOther: TEST_EXCEPTION(J(), Exception, [&](const Exception&) { got.push_back(-n.id); }); break;
		case ThrowErr: T(); break; case ThrowExc: X(); break; case ThrowArg: A(); break; case ThrowInt: J(); break;
		case Print: TEST_PRINT(L"text"); break;
		default:;
		}
		got.push_back(n.id);
	}
}
// the reference: 0 passed, 1 failed, 2 exception on its way out
enum Ctx { File, Category, InCase };
static bool model(const std::vector<Node>& v, Ctx c, bool& failed);
static bool block(const Node& n, bool isCase, bool& failed, std::function<bool(bool&)> body)
{
	bool f = false; bool t = body(f);
	if (t && !suppress) return true;
	if (t) f = true;
	if (isCase) { total++; if (!f) passed++; }
	if (f) failed = true;
	return false;
}
static bool model(const std::vector<Node>& v, Ctx c, bool& failed)
{
	for (auto& n : v)
	{
		want.push_back(n.id); bool t = false;
		switch (n.op)
		{
		case Cat: if (c == InCase) t = true; else t = block(n, false, failed, [&](bool& f) { want.push_back(-n.id); return model(n.sub, Category, f); }); break;
		case Case: if (c == InCase) t = true; else t = block(n, true, failed, [&](bool& f) { want.push_back(-n.id); return model(n.sub, InCase, f); }); break;
		case CaseAssert: if (c == InCase) t = true; else t = block(n, true, failed, [&](bool& f) { want.push_back(-n.id); return false; }); break;
		case CaseAssertBad: if (c == InCase) t = true; else t = block(n, true, failed, [&](bool& f) { want.push_back(-n.id); return true; }); break;
		case AssertOk: if (c != InCase) t = true; else want.push_back(-n.id); break;
		case AssertBad: if (c == InCase) want.push_back(-n.id); t = true; break;
		case ErrOk: t = c != InCase; break;
		case ErrNone: case ErrOther: case ErrConfig: t = true; break;
		case ExcOk: case ExcDerived: want.push_back(-n.id); break;
		case ExcNone: case ExcOther: case ThrowErr: case ThrowExc: case ThrowArg: case ThrowInt: t = true; break;
		default:;
		}
		if (t) { failed = true; return true; }
		want.push_back(n.id);
	}
	return false;
}
static int badness;
static Op pick(int depth, bool inCase)
{
	if (depth <= 0 || (inCase && rnd(0, 30))) { static const Op good[] = { AssertOk, ErrOk, ExcOk, ExcDerived, Print }; if (rnd(0, 99) >= badness) return inCase ? good[rnd(0, 4)] : (rnd(0, 1) ? CaseAssert : Print); return (Op)rnd(CaseAssertBad, Print); }
	if (rnd(0, 99) < badness) return (Op)rnd(0, OPS - 1);
	return rnd(0, 2) ? (rnd(0, 1) ? Cat : Case) : rnd(0, 1) ? CaseAssert : Print;
}
static std::vector<Node> gen(int depth, bool inCase)
{
	std::vector<Node> v; int n = (int)rnd(0, 3);
	for (int i = 0; i < n; i++) { Op op = pick(depth, inCase); Node x{ op, ++ids, {} }; if (op == Cat || op == Case) x.sub = gen(depth - 1, op == Case); v.push_back(x); }
	return v;
}
static void show(const std::vector<Node>& v, std::string ind) { for (auto& n : v) { log(ind + names[n.op]); show(n.sub, ind + "  "); } }
static const int N = 6; static std::vector<Node> tree[N]; static std::vector<int> order;
template<int I> void proc() { order.push_back(I); got.push_back(1000000 + I); run(tree[I]); }
static UnitTestFileProc procs[N] = { proc<0>, proc<1>, proc<2>, proc<3>, proc<4>, proc<5> };
static const char* files[N] = { "TestA.cpp", "/some/dir/TestB.cpp", "C:\\dir\\TestC.cpp", "/some/MyTestA.cpp", "dir/sub/TestB.cpp", "x" };
static bool ends(const std::string& f, const std::string& s) { if (f == s) return true; return f.size() > s.size() && f.compare(f.size() - s.size(), s.size(), s) == 0 && (f[f.size() - s.size() - 1] == '/' || f[f.size() - s.size() - 1] == '\\'); }
static int registered = 0;
static void once()
{
	trace.clear(); lines.clear(); got.clear(); want.clear(); order.clear(); ids = 0; total = passed = 0;
	badness = rnd(0, 2) ? (int)rnd(0, 25) : 0;
	for (int i = 0; i < registered; i++) { tree[i] = gen((int)rnd(0, 3), false); }
	std::vector<std::string> opts; bool D = false, R = false, bad = false; std::vector<std::string> F;
	switch (rnd(0, 9)) { case 0: opts.push_back("/D"); D = true; break; case 1: opts.push_back("/R"); R = true; break; case 2: case 3: case 4: opts.push_back("/R"); R = true; break; default:; }
	if (rnd(0, 2) == 0) for (int k = (int)rnd(1, 3); k > 0; k--) { static const char* pats[] = { "TestA.cpp", "TestB.cpp", "TestC.cpp", "A.cpp", "dir/TestB.cpp", "sub/TestB.cpp", "MyTestA.cpp", "x", "y", "/some/dir/TestB.cpp", "dir/sub/TestB.cpp", "dir\\TestC.cpp", "pp" }; std::string p = pats[rnd(0, 12)]; F.push_back(p); opts.insert(opts.begin() + rnd(0, (long)opts.size()), "/F:" + p); }
	if (rnd(0, 25) == 0) { static const char* us[] = { "/X", "", "/F:", "/F", "D", "/d", "/r", "/DR", "/f:x", "/RF:x" }; opts.insert(opts.begin() + rnd(0, (long)opts.size()), us[rnd(0, 9)]); bad = true; }
	if (rnd(0, 25) == 0) { opts.insert(opts.begin() + rnd(0, (long)opts.size()), D ? "/R" : "/D"); if (D || R) bad = true; else D = true; }
	std::string cmd = "options:"; for (auto& o : opts) cmd += " [" + o + "]"; log(cmd);
	for (int i = 0; i < registered; i++) { log(S("file ", files[i])); show(tree[i], "  "); }
	suppress = !D;
	int tf = 0, pf = 0; bool thrown = false; std::vector<int> exp;
	if (!bad) for (int i = 0; i < registered && !thrown; i++)
	{
		bool sel = F.empty(); for (auto& s : F) if (ends(files[i], s)) sel = true;
		if (!sel) continue;
		exp.push_back(i); want.push_back(1000000 + i); bool f = false; bool t = model(tree[i], File, f);
		if (t && !suppress) { thrown = true; break; }
		tf++; if (!f && !t) pf++;
	}
	int rc = -1; bool threw = false;
	try
	{
		if (rnd(0, 1))
		{
			std::vector<std::wstring> w; w.push_back(L"prog"); for (auto& o : opts) w.push_back(std::wstring(o.begin(), o.end()));
			std::vector<wchar_t*> p; for (auto& s : w) p.push_back(&s[0]);
			rc = UnitTest::RunAndDisposeTests((int)p.size(), p.data());
		}
		else
		{
			std::vector<std::string> w; w.push_back("prog"); for (auto& o : opts) w.push_back(o);
			std::vector<char*> p; for (auto& s : w) p.push_back(&s[0]);
			rc = UnitTest::RunAndDisposeTests((int)p.size(), p.data());
		}
	}
	catch (...) { threw = true; }
	if (threw != thrown) fail(threw ? "an exception leaves the run" : "with /D a failure must leave the run as an exception");
	if (order != exp) { std::string s; for (int i : order) s += S(" ", files[i]); fail("files executed:" + s); }
	if (got != want) fail("bodies are not executed as written");
	if (threw) { for (auto& t : tree) t.clear(); char p[] = "prog"; char* pp[] = { p }; UnitTest::RunAndDisposeTests(1, pp); return; }   // a new run starts afresh
	if (bad) { if (rc == 0) fail("wrong options must not be reported as success"); return; }
	if ((rc == 0) != (tf == pf)) fail(S("result ", rc, " with ", pf, " of ", tf, " files passed"));
	auto has = [&](const std::string& s) { std::wstring w(s.begin(), s.end()); for (auto& l : lines) if (l == w) return true; return false; };
	if (!has(S("Passed test files: ", pf, "/", tf))) fail(S("number of passed files is not reported as ", pf, "/", tf));
	if (!has(S("Passed test cases: ", passed, "/", total))) fail(S("number of passed cases is not reported as ", passed, "/", total));
	bool cfg = false; try { UnitTest::EnsureLegalToAssert(); } catch (const UnitTestConfigError&) { cfg = true; } if (!cfg) fail("assertion accepted after the run");
	cfg = false; try { UnitTest::RunCategoryOrCase(L"x", rnd(0, 1), []() { fail("case accepted after the run"); }); } catch (const UnitTestConfigError&) { cfg = true; } if (!cfg) fail("case accepted after the run");
	cfg = false; try { UnitTest::PrintMessage(L"x", UnitTest::MessageKind::Info); } catch (const UnitTestConfigError&) { cfg = true; } if (!cfg) fail("message accepted after the run");
}
int main(int argc, char** argv)
{
	init(argc, argv);
	for (registered = 0; registered <= N; registered++)
	{
		if (registered > 0) new UnitTestFile(files[registered - 1], procs[registered - 1]);
		for (long k = 0; k < 30000 && more((registered + 1) / 7.0); k++) once();
	}
	return 0;
}
