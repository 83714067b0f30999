// random histories of flat_map against std::map
#include "common.h"
#include "blockTensor/flat_map.h"
#include <map>
using namespace quantit;
static std::mt19937_64 rng;
static long rnd(long n) { return rng() % n; }

template <class K, class V, class C>
struct Hist
{
	using M = flat_map<K, V, C>;
	using P = std::pair<K, V>;
	using Ord = std::map<K, V, C>;
	std::function<K()> key;
	std::function<V()> val;
	std::string bad;
	void ck(bool ok, const char *w)
	{
		if (!ok && bad.empty()) bad = w;
	}
	long at(M &m, typename M::iterator it) { return it - m.begin(); }
	long pos(const Ord &r, const K &k) { return std::distance(r.begin(), r.lower_bound(k)); }
	void same(const M &m, const Ord &r, const char *w)
	{
		ck(m.size() == r.size() && m.empty() == r.empty() && size_t(m.end() - m.begin()) == r.size(), w);
		if (m.size() != r.size()) return;
		auto i = r.begin();
		for (auto &x : m)
		{
			ck(x.first == i->first && x.second == i->second, w);
			++i;
		}
		auto j = r.rbegin();
		for (auto x = m.rbegin(); x != m.rend(); ++x, ++j) ck(x->first == j->first, "reverse iteration");
	}
	void lookups(M &m, const Ord &r, const K &k)
	{
		const M &c = m;
		bool in = r.count(k);
		long p = pos(r, k);
		ck(c.contains(k) == in && c.count(k) == size_t(in) && m.contains(k) == in, "contains or count");
		ck(at(m, m.find(k)) == (in ? p : long(r.size())) && c.find(k) - c.begin() == (in ? p : long(r.size())), "find");
		auto e = m.equal_range(k);
		auto ec = c.equal_range(k);
		ck(e.second - e.first == in && ec.second - ec.first == in, "equal_range");
		if (in)
		{
			ck(c.at(k) == r.at(k) && m.at(k) == r.at(k) && e.first->first == k, "checked access to a present key");
			ck(m[k] == r.at(k) && m.size() == r.size(), "access to a present key");
		}
		else
			ck(throws([&] { (void)c.at(k); }) && throws([&] { (void)m.at(k); }), "checked access to an absent key does not raise");
		ck(at(m, m.lower_bound(k)) == p && c.lower_bound(k) - c.begin() == p, "lower_bound");
		ck(at(m, m.upper_bound(k)) == p + in && c.upper_bound(k) - c.begin() == p + in, "upper_bound");
	}
	void run(const std::string &name, int steps)
	{
		Rep &R = Rep::get();
		R.begin(name);
		std::string log;
		M m[2];
		Ord r[2];
		bad.clear();
		guarded([&] {
			for (int s = 0; s < steps && bad.empty(); ++s)
			{
				int a = rnd(2), b = 1 - a, what = rnd(24);
				M &x = m[a], &y = m[b];
				Ord &rx = r[a], &ry = r[b];
				K k = key();
				V v = val();
				bool in = rx.count(k);
				long h = rnd(x.size() + 1);
				std::ostringstream o;
				o << " op" << what << "(map " << a << ", size " << x.size() << ", hint " << h << ")";
				log += o.str();
				auto coll = [](V &p, const V &q) { p = p + q; };
				auto nocoll = [](V &p) { p = p + p; };
				auto ref_merge = [&](bool useC, bool useN) {
					for (auto &e : ry)
					{
						auto f = rx.find(e.first);
						if (f == rx.end())
						{
							V w = e.second;
							if (useN) nocoll(w);
							rx.emplace(e.first, w);
						}
						else if (useC)
							coll(f->second, e.second);
					}
				};
				switch (what)
				{
				case 0:
				{
					P e(k, v);
					auto [it, ok] = x.insert(e);
					rx.insert(e);
					ck(ok == !in && at(x, it) == pos(rx, k), "insert: report or position");
					break;
				}
				case 1:
				{
					auto [it, ok] = x.insert(P(k, v));
					rx.insert(P(k, v));
					ck(ok == !in && at(x, it) == pos(rx, k), "insert (moved): report or position");
					break;
				}
				case 2:
				{
					P e(k, v);
					auto it = x.insert(x.cbegin() + h, e);
					rx.insert(e);
					ck(at(x, it) == pos(rx, k), "hinted insert: position");
					break;
				}
				case 3:
				{
					auto it = x.insert(x.cbegin() + h, P(k, v));
					rx.insert(P(k, v));
					ck(at(x, it) == pos(rx, k), "hinted insert (moved): position");
					break;
				}
				case 4:
				{
					auto [it, ok] = x.emplace(x.cbegin() + h, k, v);
					rx.emplace(k, v);
					ck(ok == !in && it != typename M::iterator() && at(x, it) == pos(rx, k), "hinted emplace: report or position");
					break;
				}
				case 5:
				{
					auto [it, ok] = x.emplace(x.begin() + h, k, v);
					rx.emplace(k, v);
					ck(ok == !in && it != typename M::iterator() && at(x, it) == pos(rx, k), "hinted emplace: report or position");
					break;
				}
				case 6: x[k] = v; rx[k] = v; break;
				case 7: { V &w = x[k]; ck(w == rx[k], "default value"); break; }
				case 8:
					if (rx.size() && size_t(h) < rx.size())
					{
						auto it = rnd(2) ? x.erase(x.begin() + h) : x.erase(x.cbegin() + h);
						rx.erase(std::next(rx.begin(), h));
						ck(at(x, it) == h, "erase: position");
					}
					break;
				case 9:
				{
					if (rnd(3)) break;
					long l = h + rnd(x.size() - h + 1);
					x.erase(x.cbegin() + h, x.cbegin() + l);
					rx.erase(std::next(rx.begin(), h), std::next(rx.begin(), l));
					break;
				}
				case 10: ck(x.erase(k) == rx.erase(k), "erase by key: count"); break;
				case 11: x.merge(y); ref_merge(false, false); break;
				case 12: x.merge(y, coll); ref_merge(true, false); break;
				case 13: x.merge(y, coll, nocoll); ref_merge(true, true); break;
				case 14:
				case 15:
				{
					M c(y);
					if (rnd(2)) c.reserve(x.size() + y.size() + rnd(3));
					if (what == 14) { x.merge(std::move(c), coll); ref_merge(true, false); }
					else { x.merge(std::move(c), coll, nocoll); ref_merge(true, true); }
					break;
				}
				case 16: x.insert(y.begin(), y.end(), coll); ref_merge(true, false); break;
				case 17: { const M &cy = y; x.insert(cy.begin(), cy.end()); ref_merge(false, false); break; }
				case 18:
				{ // unsorted sequence with repetitions
					std::vector<P> u;
					for (int n = rnd(12); n > 0; --n) u.push_back(P(key(), val()));
					if (rnd(2))
					{
						x.insert(u.begin(), u.end(), [&](P &p, P &q) { coll(p.second, q.second); });
						for (auto &e : u)
						{
							auto f = rx.find(e.first);
							if (f == rx.end()) rx.insert(e);
							else coll(f->second, e.second);
						}
					}
					else
					{
						x.insert(u.begin(), u.end(), [](P &, P &) {});
						for (auto &e : u) rx.insert(e);
					}
					break;
				}
				case 19:
				{ // construction from sequences
					std::vector<P> u;
					for (int n = rnd(30); n > 0; --n) u.push_back(P(key(), val()));
					Ord w;
					for (auto &e : u) w.insert(e);
					M c1(u.begin(), u.end()), c2(u), c3((std::vector<P>(u)));
					same(c1, w, "construction from a range");
					same(c2, w, "construction from a sequence");
					same(c3, w, "construction from a moved sequence");
					if (u.size() > 2) { M c4{u[0], u[1], u[2], u[0]}; Ord w4{u[0], u[1], u[2]}; same(c4, w4, "construction from a list"); }
					if (rnd(4) == 0) { x = std::move(c1); rx = w; }
					break;
				}
				case 20: if (rnd(2)) x.swap(y); else { using std::swap; swap(x, y); } rx.swap(ry); break;
				case 21: if (rnd(5) == 0) { x.clear(); rx.clear(); } else x.reserve(x.size() + rnd(8)); break;
				case 22: { M c(y); if (rnd(2)) x = c; else x = std::move(c); rx = ry; break; }
				default: { M c(x); c.merge(x, coll); Ord w = rx; for (auto &e : w) coll(e.second, e.second); same(c, w, "merge with a copy"); break; }
				}
				for (int i = 0; i < 2; ++i)
				{
					same(m[i], r[i], "content");
					lookups(m[i], r[i], k);
				}
				ck((m[0] == m[1]) == (r[0] == r[1]), "equality");
			}
		});
		if (bad.size())
			R.fail("after" + (log.size() > 1200 ? "..." + log.substr(log.size() - 1200) : log) + ": " + bad);
	}
};
int main(int argc, char **argv)
{
	Rep &R = Rep::get();
	R.init(argc, argv);
	rng.seed(R.seed);
	int n = R.thorough() ? 20000 : 1500;
	for (int h = 0; h < n; ++h)
	{
		long span = 3 + rnd(40);
		int steps = 10 + rnd(60);
		std::string tag = " history " + std::to_string(h) + " seed " + std::to_string(R.seed);
		switch (h % 4)
		{
		case 0:
		{
			Hist<int, std::string, std::less<int>> H;
			H.key = [=] { return int(rnd(span)); };
			H.val = [=] { return std::string(1, char('a' + rnd(26))); };
			H.run("integer keys, string values," + tag, steps);
			break;
		}
		case 1:
		{
			Hist<int, double, std::less<int>> H;
			H.key = [=] { return int(rnd(span)) - 10; };
			H.val = [=] { return double(rnd(100)); };
			H.run("integer keys, double values," + tag, steps);
			break;
		}
		case 2:
		{
			Hist<std::vector<int64_t>, std::string, std::less<std::vector<int64_t>>> H;
			H.key = [=] { return std::vector<int64_t>{rnd(3), rnd(4), rnd(3)}; };
			H.val = [=] { return std::string(1, char('a' + rnd(26))); };
			H.run("block index keys," + tag, steps);
			break;
		}
		default:
		{
			Hist<int, std::string, std::greater<int>> H;
			H.key = [=] { return int(rnd(span)); };
			H.val = [=] { return std::string(1, char('a' + rnd(26))); };
			H.run("integer keys in decreasing order," + tag, steps);
		}
		}
	}
	return R.finish();
}
