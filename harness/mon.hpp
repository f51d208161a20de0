// The monitor runtime shared by all drivers: deterministic chunk scheduling, violation log, coverage
// accounting, sample log, hang watchdog and crash capture.
#pragma once
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace mon
{
	inline std::string esc(const std::string & s)
	{
		std::string r;
		for (char c : s)
		{
			if (c == '"' || c == '\\')
			{
				r += '\\';
				r += c;
			}
			else if ((unsigned char)c < 32)
			{
				char b[8];
				std::snprintf(b, sizeof b, "\\u%04x", c);
				r += b;
			}
			else
				r += c;
		}
		return r;
	}
	__attribute__((format(printf, 1, 2))) inline std::string fmt(const char * f, ...)
	{
		char b[4096];
		va_list a;
		va_start(a, f);
		std::vsnprintf(b, sizeof b, f, a);
		va_end(a);
		return b;
	}

	struct Args
	{
		std::string prop, out, dict, sub;
		bool thorough	   = false;
		std::uint64_t seed = 1;
		int jobs		   = 0;
		double budget	   = 0;
		std::vector<std::string> so;
		std::string tmp;
		std::string replay;
	};
	inline Args args;

	struct Viol
	{
		std::string key, what, known;
		std::uint64_t count = 0;
	};
	inline std::mutex mu;
	inline std::map<std::string, Viol> viols;	// by key
	inline std::map<std::string, Viol> knowns;	// by finding id
	inline std::vector<std::string> samples;
	inline std::vector<const void *> sampled;
	inline std::atomic<bool> sampled_all{ false };
	inline std::map<std::string, double> stats; // numeric observations for the evidence file
	inline std::atomic<std::uint64_t> evals{ 0 }, checks{ 0 };
	constexpr std::size_t kBits = 1u << 22;
	struct Worker
	{
		std::vector<std::uint64_t> cov = std::vector<std::uint64_t>(kBits / 64);
		std::uint64_t ev = 0, ck = 0;
		std::atomic<std::uint64_t> tick{ 0 };
		std::atomic<bool> busy{ false };
		char now[512]	   = {};
		const void * fnp   = nullptr;
		const char * fname = nullptr;
		const char * var   = nullptr;
		int mode		   = 0;
		unsigned char raw[64] = {};
		int nraw			  = 0;
		Worker() = default;
	};
	inline std::vector<std::unique_ptr<Worker>> workers;
	inline std::vector<Worker *> idle;
	inline std::vector<std::uint64_t> covAll(kBits / 64);
	inline thread_local Worker * me = nullptr;

	inline Worker & self()
	{
		if (!me)
		{
			std::lock_guard<std::mutex> g(mu);
			if (!idle.empty())
			{
				me = idle.back();
				idle.pop_back();
			}
			else
			{
				workers.push_back(std::make_unique<Worker>());
				me = workers.back().get();
			}
		}
		return *me;
	}
	inline std::uint64_t mix(std::uint64_t z)
	{
		z += 0x9e3779b97f4a7c15ull;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	inline void cover(std::uint64_t k)
	{
		k = mix(k) & (kBits - 1);
		Worker & w = self();
		w.cov[k >> 6] |= 1ull << (k & 63);
		w.tick.store(w.tick.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
	}
	// What the calling worker is about to run, for the watchdog and the crash handler. The arguments are
	// kept raw and rendered only when needed.
	template <class... A> inline void about(const char * fname, const char * var, int mode, const A &... a)
	{
		Worker & w = self();
		w.fname	   = fname;
		w.var	   = var;
		w.mode	   = mode;
		int n	   = 0;
		((std::memcpy(w.raw + n, &a, sizeof a), n += (int)sizeof a), ...);
		w.nraw = n;
		w.tick.store(w.tick.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
	}
	inline std::string describe(Worker & w)
	{
		std::string s = std::string(w.fname ? w.fname : "?") + " variant=" + (w.var ? w.var : "?") + " mode=" + std::to_string(w.mode) + " raw-args(le)=";
		for (int i = 0; i < w.nraw; ++i) s += fmt("%02x", w.raw[i]);
		return s;
	}

	inline bool violation(const std::string & key, const std::string & what, const std::string & known = "")
	{
		std::lock_guard<std::mutex> g(mu);
		auto & m = known.empty() ? viols : knowns;
		auto & v = m[known.empty() ? key : known];
		if (v.count++ == 0)
		{
			v.key	= key;
			v.what	= what;
			v.known = known;
		}
		return known.empty() && viols.size() > 40;
	}
	inline void sample(const std::string & s)
	{
		std::lock_guard<std::mutex> g(mu);
		if (samples.size() < 24) samples.push_back(s);
	}
	// one sample per operation (identified by the address of its name)
	template <class F> inline void sample_once(const void * id, F f)
	{
		if (sampled_all.load(std::memory_order_relaxed)) return;
		thread_local const void * known[64]; // open addressing; full: enough seen
		std::size_t k = (std::uintptr_t)id * 0x9e3779b97f4a7c15ull >> 58;
		for (int n = 0; n < 32 && known[k] != nullptr; ++n, k = (k + 1) % 64)
			if (known[k] == id) return;
		if (known[k] != nullptr) return;
		known[k] = id;
		std::lock_guard<std::mutex> g(mu);
		for (const void * s : sampled)
			if (s == id) return;
		if (samples.size() >= 24) return sampled_all.store(true, std::memory_order_relaxed);
		sampled.push_back(id);
		samples.push_back(f());
	}
	inline void stat_max(const std::string & k, double v)
	{
		std::lock_guard<std::mutex> g(mu);
		auto it = stats.find(k);
		if (it == stats.end() || v > it->second) stats[k] = v;
	}
	inline void stat_add(const std::string & k, double v)
	{
		std::lock_guard<std::mutex> g(mu);
		stats[k] += v;
	}

	inline std::string render(bool crashed = false)
	{
		std::uint64_t ev = evals.load(), ck = checks.load();
		std::vector<std::uint64_t> all = covAll;
		for (auto & w : workers)
		{
			ev += w->ev;
			ck += w->ck;
			for (std::size_t i = 0; i < all.size(); ++i) all[i] |= w->cov[i];
		}
		std::uint64_t d = 0;
		for (auto w : all) d += (std::uint64_t)__builtin_popcountll(w);
		std::string o = fmt("{\n \"evaluations\": %llu, \"checks\": %llu, \"distinct\": %llu, \"crashed\": %s,\n \"violations\": [", (unsigned long long)ev, (unsigned long long)ck,
							(unsigned long long)d, crashed ? "true" : "false");
		bool first = true;
		for (auto & kv : viols)
		{
			o += (first ? "\n  " : ",\n  ");
			first = false;
			o += "{\"key\": \"" + esc(kv.second.key) + "\", \"what\": \"" + esc(kv.second.what) + "\", \"count\": " + std::to_string(kv.second.count) + "}";
		}
		o += "],\n \"known\": [";
		first = true;
		for (auto & kv : knowns)
		{
			o += (first ? "\n  " : ",\n  ");
			first = false;
			o += "{\"id\": \"" + esc(kv.first) + "\", \"what\": \"" + esc(kv.second.what) + "\", \"count\": " + std::to_string(kv.second.count) + "}";
		}
		o += "],\n \"samples\": [";
		first = true;
		for (auto & s : samples)
		{
			o += (first ? "\n  \"" : ",\n  \"") + esc(s) + "\"";
			first = false;
		}
		o += "],\n \"stats\": {";
		first = true;
		for (auto & kv : stats)
		{
			o += (first ? "\n  \"" : ",\n  \"") + esc(kv.first) + "\": " + fmt("%.6g", std::isfinite(kv.second) ? kv.second : 1e300);
			first = false;
		}
		o += "}\n}\n";
		return o;
	}
	inline void write_out(bool crashed = false)
	{
		std::string s = render(crashed);
		if (args.out.empty()) std::fputs(s.c_str(), stdout);
		else
		{
			std::ofstream f(args.out);
			f << s;
		}
	}
	inline std::atomic<bool> dying{ false };
	inline void die_with(const std::string & key, const std::string & what)
	{
		if (dying.exchange(true)) { for (;;) pause(); }
		Viol v;
		v.key		= key;
		v.what		= what;
		v.count		= 1;
		viols[key]	= v;
		write_out(true);
		_exit(1);
	}
	inline void on_signal(int sig)
	{
		Worker * w = me;
		const char * n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : "SIGABRT";
		die_with(std::string("crash/") + n + "/" + (w && w->fname ? w->fname : "?"), std::string(n) + " in " + (w ? describe(*w) : "?"));
	}
	inline void watchdog(double limit)
	{
		std::thread([limit] {
			std::map<Worker *, std::pair<std::uint64_t, std::chrono::steady_clock::time_point>> seen;
			for (;;)
			{
				std::this_thread::sleep_for(std::chrono::milliseconds(500));
				std::vector<Worker *> ws;
				{
					std::lock_guard<std::mutex> g(mu);
					for (auto & w : workers) ws.push_back(w.get());
				}
				auto now = std::chrono::steady_clock::now();
				for (auto * w : ws)
				{
					std::uint64_t t = w->tick.load();
					auto & s		= seen[w];
					if (!w->busy.load() || t != s.first || s.second == std::chrono::steady_clock::time_point{})
					{
						s = { t, now };
						continue;
					}
					if (std::chrono::duration<double>(now - s.second).count() > limit)
						die_with(std::string("hang/") + (w->fname ? w->fname : "?"), "no return within " + std::to_string((int)limit) + " s: " + describe(*w));
				}
			}
		}).detach();
	}
	inline std::chrono::steady_clock::time_point t_start = std::chrono::steady_clock::now();
	inline double elapsed()
	{ return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count(); }
	inline int njobs()
	{
		if (args.jobs > 0) return args.jobs;
		int n = (int)std::thread::hardware_concurrency();
		return n < 1 ? 1 : n > 16 ? 16 : n;
	}

	// Runs f(chunk) for chunk in [0,n), each exactly once, on all cores. What a chunk does depends only on its index and the seed.
	inline void parallel(std::uint64_t n, const std::function<void(std::uint64_t)> & f)
	{
		std::atomic<std::uint64_t> next{ 0 };
		std::vector<std::thread> ts;
		for (int i = 0; i < njobs(); ++i)
			ts.emplace_back([&] {
				Worker & w = self();
				w.busy	   = true;
				for (;;)
				{
					std::uint64_t c = next.fetch_add(1);
					if (c >= n) break;
					f(c);
				}
				w.busy = false;
				evals += w.ev;
				checks += w.ck;
				w.ev = w.ck = 0;
				{
					std::lock_guard<std::mutex> g(mu);
					for (std::size_t k = 0; k < covAll.size(); ++k)
					{
						covAll[k] |= w.cov[k];
						w.cov[k] = 0;
					}
					idle.push_back(&w);
				}
			});
		for (auto & t : ts) t.join();
	}
	inline void init(int argc, char ** argv)
	{
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			auto val	  = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--prop") args.prop = val();
			else if (a == "--out") args.out = val();
			else if (a == "--dict") args.dict = val();
			else if (a == "--sub") args.sub = val();
			else if (a == "--tmp") args.tmp = val();
			else if (a == "--seed") args.seed = std::strtoull(val().c_str(), nullptr, 0);
			else if (a == "--jobs") args.jobs = std::atoi(val().c_str());
			else if (a == "--budget") args.budget = std::atof(val().c_str());
			else if (a == "--tier") args.thorough = val() == "thorough";
			else if (a == "--replay") args.replay = val();
			else
				args.so.push_back(a);
		}
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
		for (int s : { SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT }) std::signal(s, on_signal);
#endif
		watchdog(60);
		t_start = std::chrono::steady_clock::now();
	}
	inline int finish()
	{
		write_out();
		std::fflush(nullptr);
		_exit(viols.empty() ? 0 : 1); // no destructors: the watchdog is still running
	}
} // namespace mon
