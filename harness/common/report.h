// Command line and result file shared by all of the harness binaries.
#pragma once
#include "util.h"
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <mutex>
#include <unordered_set>

namespace vh {

struct Options
{
	std::string prop;
	uint64_t seed = 1;
	int shard = 0;
	int shards = 1;
	long cases = 100;
	long only = -1; // run just this case
	std::string out;
	bool verbose = false;
	std::map<std::string, std::string> extra;
};

inline Options parseOptions(int argc, char** argv)
{
	Options o;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&]() -> std::string {
			if (i + 1 >= argc)
			{
				std::cerr << "missing value for " << a << "\n";
				exit(2);
			}
			return argv[++i];
		};
		if (a == "--prop") o.prop = val();
		else if (a == "--seed") o.seed = std::stoull(val());
		else if (a == "--shard") o.shard = std::stoi(val());
		else if (a == "--shards") o.shards = std::stoi(val());
		else if (a == "--cases") o.cases = std::stol(val());
		else if (a == "--only") o.only = std::stol(val());
		else if (a == "--out") o.out = val();
		else if (a == "--verbose") o.verbose = true;
		else if (a.substr(0, 2) == "--") { auto k = a.substr(2); o.extra[k] = val(); }
		else { std::cerr << "unknown option " << a << "\n"; exit(2); }
	}
	return o;
}

// What the monitors observed, written to the result file for check.py to merge and judge.
struct Report
{
	Options opt;
	long evaluations = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, long> counters;
	std::vector<std::string> samples;
	struct Violation { std::string what, detail; long index; };
	std::vector<Violation> violations;
	std::map<std::string, std::string> findings; // probe id -> what failed
	std::mutex mutex;
	long current = -1;

	void note(uint64_t h) { distinct.insert(h); }
	void note(const std::string& s) { distinct.insert(hashStr(s)); }
	void count(const std::string& k, long n = 1) { counters[k] += n; }
	void sample(const std::string& s, size_t max = 3)
	{
		if (samples.size() < max)
			samples.push_back(s.size() > 1500 ? s.substr(0, 1500) + "..." : s);
	}
	void violation(const std::string& what, const std::string& detail)
	{
		if (violations.size() < 20)
			violations.push_back({ what, detail, current });
		if (opt.verbose)
			std::cerr << "VIOLATION case " << current << ": " << what << "\n" << detail << "\n";
	}
	void finding(const std::string& id, const std::string& what) { findings[id] = what; }

	// The index of the current case goes to a side file before it runs, so that a crash or a hang
	// can be attributed.
	void begin(long index)
	{
		current = index;
		if (!opt.out.empty())
		{
			static FILE* f = fopen((opt.out + ".cur").c_str(), "w");
			if (f)
			{
				fseek(f, 0, SEEK_SET);
				fprintf(f, "%-20ld\n", index);
				fflush(f);
			}
		}
	}
	void trace(const std::string& text)
	{
		if (!opt.out.empty())
		{
			std::ofstream f(opt.out + ".trace", std::ios::binary | std::ios::trunc);
			f << text;
		}
	}

	static std::string esc(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s)
		{
			char b[8];
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } // bytes as Latin-1
			else r += (char)c;
		}
		return r + "\"";
	}
	int finish()
	{
		std::ostringstream o;
		o << "{\"evaluations\":" << evaluations << ",\"counters\":{";
		bool f = true;
		for (auto& c : counters)
		{
			o << (f ? "" : ",") << esc(c.first) << ":" << c.second;
			f = false;
		}
		o << "},\"samples\":[";
		f = true;
		for (auto& s : samples)
		{
			o << (f ? "" : ",") << esc(s);
			f = false;
		}
		o << "],\"violations\":[";
		f = true;
		for (auto& v : violations)
		{
			o << (f ? "" : ",") << "{\"what\":" << esc(v.what) << ",\"detail\":" << esc(v.detail) << ",\"case\":" << v.index << "}";
			f = false;
		}
		o << "],\"findings\":{";
		f = true;
		for (auto& v : findings)
		{
			o << (f ? "" : ",") << esc(v.first) << ":" << esc(v.second);
			f = false;
		}
		o << "},\"distinct\":[";
		f = true;
		for (auto h : distinct)
		{
			o << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\"";
			f = false;
		}
		o << "]}";
		if (opt.out.empty())
			std::cout << o.str().substr(0, 4000) << "\n";
		else
		{
			std::ofstream out(opt.out + ".tmp", std::ios::binary);
			out << o.str();
			out.close();
			rename((opt.out + ".tmp").c_str(), opt.out.c_str());
		}
		return violations.empty() ? 0 : 1;
	}
};

// The seed of one case depends on the run's seed and the case's index only, so that any case can be
// replayed alone.
inline uint64_t caseSeed(const Options& o, long index)
{
	return mix(o.seed * 1000003ULL + hashStr(o.prop)) ^ mix(static_cast<uint64_t>(index) + 77);
}
template <class F>
void forCases(Report& r, F&& f)
{
	if (r.opt.only >= 0)
	{
		r.begin(r.opt.only);
		f(r.opt.only, caseSeed(r.opt, r.opt.only));
		return;
	}
	for (long i = r.opt.shard; i < r.opt.cases; i += r.opt.shards)
	{
		r.begin(i);
		f(i, caseSeed(r.opt, i));
		if (r.violations.size() >= 5)
			break;
	}
}

} // namespace vh
