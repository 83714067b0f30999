// shared by the real-code drivers: case reporting, generators of block tensor structures, reference model
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

struct Rep
{
	FILE *out = nullptr;
	std::string tier;
	uint64_t seed = 1;
	long evals = 0, nfail = 0;
	std::set<uint64_t> seen;
	std::map<std::string, long> counts;
	int nsamples = 0;
	unsigned alarm_s = 60;
	bool thorough() const { return tier == "thorough"; }
	static Rep &get()
	{
		static Rep r;
		return r;
	}
	static void clean(std::string &s)
	{
		for (auto &c : s)
			if (c == '\n' || c == '\t')
				c = ' ';
		if (s.size() > 1500)
			s.resize(1500);
	}
	void init(int argc, char **argv)
	{
		tier = argc > 1 ? argv[1] : "quick";
		seed = argc > 2 ? atoll(argv[2]) : 1;
		out = fopen(argc > 3 ? argv[3] : "/dev/stdout", "w");
		setvbuf(out, nullptr, _IOFBF, 1 << 16);
		signal(SIGALRM, on_alarm);
	}
	static void on_alarm(int)
	{
		Rep &r = get();
		fprintf(r.out, "FAIL\tdoes not terminate within %u s: %s\n", r.alarm_s, r.curcase.c_str());
		fflush(r.out);
		_exit(3);
	}
	std::string curcase;
	// announce a case: key identifies it (distinct counting), desc is only built for reports
	void begin(const std::string &desc)
	{
		curcase = desc;
		clean(curcase);
		++evals;
		uint64_t h = std::hash<std::string>()(desc);
		bool fresh = seen.size() < 2000000 && seen.insert(h).second;
		if (fresh && nsamples < 6)
		{
			++nsamples;
			fprintf(out, "SAMPLE\t%s\n", curcase.c_str());
		}
		// flushed so that a crash leaves the name of the case behind
		fprintf(out, "CUR\t%s\n", curcase.c_str());
		fflush(out);
		alarm(alarm_s);
	}
	void count(const std::string &k, long n = 1) { counts[k] += n; }
	void fail(const std::string &why)
	{
		std::string w = why;
		clean(w);
		++nfail;
		if (nfail <= 200)
			fprintf(out, "FAIL\t%s: %s\n", w.c_str(), curcase.c_str());
		fflush(out);
	}
	void check(bool ok, const char *why)
	{
		if (!ok)
			fail(why);
	}
	int finish()
	{
		alarm(0);
		for (auto &c : counts)
			fprintf(out, "COUNT\t%s\t%ld\n", c.first.c_str(), c.second);
		fprintf(out, "EVAL\t%ld\nDISTINCT\t%ld\nDONE\t1\n", evals, (long)seen.size());
		fclose(out);
		fflush(nullptr);
		_exit(nfail ? 2 : 0); // skip static destructors of the libraries
	}
};

template <class F>
bool throws(F &&f)
{
	try
	{
		f();
	}
	catch (const std::exception &)
	{
		return true;
	}
	return false;
}
// run f; an unexpected exception is a failure of the case
template <class F>
void guarded(F &&f)
{
	try
	{
		f();
	}
	catch (const std::exception &e)
	{
		Rep::get().fail(std::string("unexpected exception ") + e.what());
	}
}
template <class T>
std::string str(const std::vector<T> &v)
{
	std::ostringstream o;
	o << "[";
	for (size_t i = 0; i < v.size(); ++i)
		o << (i ? "," : "") << v[i];
	o << "]";
	return o.str();
}
