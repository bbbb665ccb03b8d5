#include "mon.h"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unordered_set>
#include "FCollada.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#include <sanitizer/lsan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr);
#endif
#endif

namespace mon
{
	bool thorough = false, verbose = false;
	std::string tmpDir;
	uint64_t caseIndex = 0, seed = 1;
	static int fd = 1;
	static uint64_t caseViol = 0, caseAsserts = 0, caseSig = 0;
	static bool caseNT = false;
	static int allow = 0;
	static std::map<std::string, uint64_t> hits;
	static std::map<std::string, int> caseKeys;
	static int samplesLeft = 6;
	static char curKeyBuf[64];

	std::vector<Prop>& props() { static std::vector<Prop> p; return p; }

	uint64_t hash(const void* p, size_t n, uint64_t h)
	{
		const unsigned char* c = (const unsigned char*) p;
		for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
		return h;
	}

	std::string esc(const std::string& s)
	{
		std::string o;
		for (unsigned char c : s)
		{
			if (c == '"') o += "\\\"";
			else if (c == '\\') o += "\\\\";
			else if (c == '\n') o += "\\n";
			else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
			else o += (char) c;
		}
		return o;
	}

	static void line(const std::string& s)
	{
		std::string t = s + "\n";
		size_t o = 0;
		while (o < t.size())
		{
			ssize_t w = write(fd, t.data() + o, t.size() - o);
			if (w <= 0) _exit(97);
			o += (size_t) w;
		}
	}

	static void emit(const std::string& key, const std::string& d)
	{
		++caseViol;
		if (++caseKeys[key] > 2) return;
		line("{\"t\":\"viol\",\"c\":" + std::to_string(caseIndex) + ",\"key\":\"" + esc(key) + "\",\"d\":\"" + esc(d.substr(0, 1500)) + "\"}");
	}

	void viol(const std::string& key, const char* fmt, ...)
	{
		char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
		emit(key, b);
	}
	void hit(const std::string& name, uint64_t n) { hits[name] += n; }
	void sig(uint64_t h) { caseSig = hash(&h, 8, caseSig ? caseSig : 1469598103934665603ull); }
	void sig(const std::string& s) { sig(hash(s.data(), s.size())); }
	void nontrivial() { caseNT = true; }
	void sample(const char* fmt, ...)
	{
		if (samplesLeft <= 0) return;
		--samplesLeft;
		char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
		line("{\"t\":\"sample\",\"c\":" + std::to_string(caseIndex) + ",\"d\":\"" + esc(b) + "\"}");
	}
	uint64_t violations() { return caseViol; }
	uint64_t asserts() { return caseAsserts; }
	AllowAsserts::AllowAsserts() { ++allow; }
	AllowAsserts::~AllowAsserts() { --allow; }

	static void onAssert(const char* file, unsigned ln)
	{
		++caseAsserts;
		const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
		hit("library_assertions");
		if (allow == 0)
		{
			emit(std::string("assert@") + b + ":" + std::to_string(ln), std::string("library assertion failed at ") + file + ":" + std::to_string(ln));
			if (verbose)
			{
#ifdef HAVE_ASAN
				__sanitizer_print_stack_trace();
#endif
			}
		}
	}

	static void onCpu(int)
	{
		// Spent far more CPU than any case needs: reported as a hang (the driver re-runs it once).
		std::string s = "{\"t\":\"hang\",\"c\":" + std::to_string(caseIndex) + "}";
		line(s);
#ifdef HAVE_ASAN
		__sanitizer_print_stack_trace();
#endif
		_exit(96);
	}
}

// Every library assertion goes through this function (the linker redirects the call).
extern "C" bool __wrap__ZN11FUAssertion17OnAssertionFailedEPKcj(const char* file, uint32 ln)
{
	mon::onAssert(file, ln);
	return false;
}

#ifdef HAVE_ASAN
extern "C" void __ubsan_on_report(void)
{
	const char* kind = "", * msg = "", * file = ""; unsigned ln = 0, col = 0; char* addr = nullptr;
	__ubsan_get_current_report_data(&kind, &msg, &file, &ln, &col, &addr);
	const char* b = file ? strrchr(file, '/') : nullptr; b = b ? b + 1 : (file ? file : "?");
	mon::emit(std::string("ubsan:") + (kind ? kind : "?") + "@" + b + ":" + std::to_string(ln), std::string(msg ? msg : "") + " at " + (file ? file : "?") + ":" + std::to_string(ln));
}
#endif

extern "C" __attribute__((weak)) int __llvm_profile_write_file(void);

int main(int argc, char** argv)
{
	std::string prop; uint64_t from = 0, count = 1; bool leakEach = false, leak = true;
	std::string out;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if (a == "--seed") mon::seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
		else if (a == "--count") count = strtoull(val().c_str(), 0, 10);
		else if (a == "--out") out = val();
		else if (a == "--tmp") mon::tmpDir = val();
		else if (a == "--thorough") mon::thorough = true;
		else if (a == "--verbose") mon::verbose = true;
		else if (a == "--leak-each") leakEach = true;
		else if (a == "--no-leak") leak = false;
		else if (a == "--rule") { for (auto& p : mon::props()) printf("%s\t%s\n", p.id, p.rule); return 0; }
		else prop = a;
	}
	const mon::Prop* p = nullptr;
	for (auto& q : mon::props()) if (prop == q.id) p = &q;
	if (!p) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 95; }
	if (!out.empty()) { mon::fd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (mon::fd < 0) return 94; }
	if (mon::tmpDir.empty()) mon::tmpDir = ".";
	else if (chdir(mon::tmpDir.c_str()) != 0) return 93;

	signal(SIGPROF, mon::onCpu);
	signal(SIGXFSZ, SIG_IGN);
	FCollada::Initialize();
	for (uint64_t c = from; c < from + count; ++c)
	{
		mon::caseIndex = c; mon::caseViol = mon::caseAsserts = mon::caseSig = 0; mon::caseNT = false; mon::caseKeys.clear();
		mon::line("{\"t\":\"begin\",\"c\":" + std::to_string(c) + "}");
		struct itimerval tv = { { 0, 0 }, { (time_t) p->cpuLimitSec, 0 } };
		setitimer(ITIMER_PROF, &tv, nullptr);
		Rng r(mon::hash(p->id, strlen(p->id)) ^ (mon::seed * 0x9E3779B97F4A7C15ull) ^ (c * 0xD1B54A32D192ED03ull + 0x1234567));
		r.next();
		p->fn(r);
		struct itimerval z = { { 0, 0 }, { 0, 0 } };
		setitimer(ITIMER_PROF, &z, nullptr);
		mon::line("{\"t\":\"end\",\"c\":" + std::to_string(c) + ",\"sig\":\"" + std::to_string(mon::caseSig) + "\",\"nt\":" + (mon::caseNT ? "1" : "0") + "}");
#ifdef HAVE_ASAN
		if (leak && leakEach && __lsan_do_recoverable_leak_check())
		{
			mon::line("{\"t\":\"leak\",\"c\":" + std::to_string(c) + "}");
			_exit(98);
		}
#endif
	}
	std::string st = "{\"t\":\"stat\",\"hits\":{";
	bool first = true;
	for (auto& h : mon::hits) { st += (first ? "\"" : ",\"") + mon::esc(h.first) + "\":" + std::to_string(h.second); first = false; }
	mon::line(st + "}}");
	FCollada::Release();
#ifdef HAVE_ASAN
	if (leak && !leakEach && __lsan_do_recoverable_leak_check())
	{
		mon::line("{\"t\":\"leakchunk\",\"from\":" + std::to_string(from) + ",\"count\":" + std::to_string(count) + "}");
	}
#endif
	fflush(stdout);
	if (__llvm_profile_write_file) __llvm_profile_write_file(); // only there in the build for tools/cov.py
	_exit(0);
}
