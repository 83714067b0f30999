// random histories of lists of type erased charges against std::vector of component lists
#include "common.h"
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include "Conserved/quantity.h"
#include <numeric>
using namespace quantit;
using namespace quantit::conserved;
using Val = std::vector<long>;
static const std::vector<std::vector<long>> mods = {{0, 0, 3}, {2, 6}, {0}, {4, 0, 5, 0}};
static any_quantity make(int t, const Val &v)
{
	switch (t)
	{
	case 0: return any_quantity(Z(v[0]), Z(v[1]), C<3>(v[2]));
	case 1: return any_quantity(C<2>(v[0]), C<6>(v[1]));
	case 2: return any_quantity(Z(v[0]));
	default: return any_quantity(C<4>(v[0]), Z(v[1]), C<5>(v[2]), Z(v[3]));
	}
}
static std::mt19937_64 rng;
static long rnd(long n) { return rng() % n; }
static Val rval(int t)
{
	Val v;
	for (long m : mods[t]) v.push_back(m ? rnd(m) : rnd(41) - 20);
	return v;
}
static Val zero(int t) { return Val(mods[t].size(), 0); }
struct L
{
	any_quantity_vector q;
	std::vector<Val> m;
	bool null = true;
};
template <class It1>
static std::string pos_ok(const any_quantity_vector &q, It1 it, size_t p)
{
	return size_t(it - const_cast<any_quantity_vector &>(q).begin()) == p ? "" : "position returned";
}
static std::string differs(int t, const any_quantity_vector &q, const std::vector<Val> &m)
{
	if (q.size() != m.size() || q.empty() != m.empty()) return "size is " + std::to_string(q.size()) + " instead of " + std::to_string(m.size());
	if (q.end() - q.begin() != (long)m.size()) return "end-begin";
	for (size_t i = 0; i < m.size(); ++i)
		if (q[i] != make(t, m[i]) || !(q.at(i) == make(t, m[i])) || *(q.begin() + i) != make(t, m[i]) || *(q.rbegin() + (m.size() - 1 - i)) != make(t, m[i]))
			return "element " + std::to_string(i) + " of " + std::to_string(m.size());
	if (m.size() && (q.front() != make(t, m.front()) || q.back() != make(t, m.back()))) return "front or back";
	if (!throws([&] { (void)q.at(m.size()); })) return "at(size) does not raise";
	return "";
}

int main(int argc, char **argv)
{
	Rep &R = Rep::get();
	R.init(argc, argv);
	rng.seed(R.seed);
	int hist = R.thorough() ? 6000 : 500;
	for (int h = 0; h < hist; ++h)
	{
		const int t = rnd(mods.size());
		std::vector<L> ls(3);
		R.begin("history " + std::to_string(h) + " seed " + std::to_string(R.seed) + " charge type " + std::to_string(t));
		std::string log;
		guarded([&] {
			for (int step = 0; step < 60; ++step)
			{
				int a = rnd(3), b = rnd(3), what = rnd(20);
				L &x = ls[a], &y = ls[b];
				size_t n = x.m.size(), p = n ? rnd(n + 1) : 0, k = rnd(6);
				if (n > 24) what = 7;
				log += " " + std::to_string(what) + "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(p) + "," + std::to_string(k) + ")";
				Val v = rval(t);
				any_quantity av = make(t, v);
				std::string bad;
				switch (what)
				{
				case 0:
				case 1: x.q.push_back(av); x.m.push_back(v); x.null = false; break;
				case 2:
					if (x.null) { R.check(throws([&] { x.q.insert(x.q.cbegin(), av); }), "insert in an untyped list does not raise"); break; }
					bad = pos_ok(x.q, x.q.insert(x.q.cbegin() + p, av), p); x.m.insert(x.m.begin() + p, v); break;
				case 3:
					if (x.null) break;
					bad = pos_ok(x.q, x.q.insert(x.q.cbegin() + p, k, av), p); x.m.insert(x.m.begin() + p, k, v); break;
				case 4:
					if (x.null || y.null || a == b) break;
					{
						size_t f = rnd(y.m.size() + 1), l = f + rnd(y.m.size() - f + 1);
						bad = pos_ok(x.q, x.q.insert(x.q.cbegin() + p, y.q.cbegin() + f, y.q.cbegin() + l), p);
						x.m.insert(x.m.begin() + p, y.m.begin() + f, y.m.begin() + l);
					}
					break;
				case 5:
					if (x.null || y.null || a == b) break;
					{
						size_t f = rnd(y.m.size() + 1), l = f + rnd(y.m.size() - f + 1);
						bad = pos_ok(x.q, x.q.insert(x.q.cbegin() + p, y.q.crbegin() + f, y.q.crbegin() + l), p);
						x.m.insert(x.m.begin() + p, y.m.rbegin() + f, y.m.rbegin() + l);
					}
					break;
				case 6:
					if (p == n) break;
					bad = pos_ok(x.q, x.q.erase(x.q.cbegin() + p), p); x.m.erase(x.m.begin() + p); break;
				case 7:
					if (x.null) break;
					{
						size_t l = p + rnd(n - p + 1);
						bad = pos_ok(x.q, x.q.erase(x.q.cbegin() + p, x.q.cbegin() + l), p); x.m.erase(x.m.begin() + p, x.m.begin() + l);
					}
					break;
				case 8: if (n) { x.q.pop_back(); x.m.pop_back(); } break;
				case 9: if (x.null) break; k = rnd(n + 5); x.q.resize(k); x.m.resize(k, zero(t)); break;
				case 10: k = rnd(n + 5); x.q.resize(k, av); x.m.resize(k, v); x.null = false; break;
				case 11: x.q = y.q; x.m = y.m; x.null = y.null; break;
				case 12: { any_quantity_vector c(y.q); x.q = std::move(c); x.m = y.m; x.null = y.null; } break;
				case 13: { using std::swap; swap(x.q, y.q); std::swap(x.m, y.m); std::swap(x.null, y.null); } break;
				case 14: x.q.clear(); x.m.clear(); break;
				case 15: if (rnd(3)) break; x.q = any_quantity_vector(); x.m.clear(); x.null = true; break;
				case 16: x.q = any_quantity_vector(k, av); x.m.assign(k, v); x.null = false; break;
				case 17:
					if (p == n) break;
					if (rnd(2)) x.q[p] = av; else *(x.q.begin() + p) = av;
					x.m[p] = v; break;
				case 18:
					x.q.reserve(n + k); if (rnd(2)) x.q.shrink_to_fit(); break;
				default:
				{ // permutation of consecutive groups
					std::vector<int64_t> rep;
					size_t s = 0;
					while (s < n || rnd(4) == 0)
					{
						size_t g = std::min<size_t>(rnd(4), n - s);
						rep.push_back(g);
						s += g;
					}
					std::vector<int64_t> perm(rep.size());
					std::iota(perm.begin(), perm.end(), 0);
					std::shuffle(perm.begin(), perm.end(), rng);
					std::vector<Val> want;
					for (auto g : perm)
					{
						size_t o = std::accumulate(rep.begin(), rep.begin() + g, size_t(0));
						want.insert(want.end(), x.m.begin() + o, x.m.begin() + o + rep[g]);
					}
					const any_quantity_vector &cq = x.q;
					any_quantity_vector r = cq.permute(perm.data(), perm.data() + perm.size(), rep);
					bad = differs(t, r, want);
					if (bad.size()) bad = "permute by " + str(perm) + " of groups " + str(rep) + ": " + bad;
					if (rnd(2)) { y.null = x.null; y.q = r; y.m = want; }
				}
				}
				for (int i = 0; i < 3 && bad.empty(); ++i)
				{
					bad = differs(t, ls[i].q, ls[i].m);
					if (bad.size()) bad = "list " + std::to_string(i) + ": " + bad;
					for (int j = 0; j < 3 && bad.empty(); ++j)
						if ((ls[i].q == ls[j].q) != (ls[i].m == ls[j].m) || (ls[i].q != ls[j].q) != (ls[i].m != ls[j].m)) bad = "comparison of lists";
				}
				if (bad.size())
				{
					R.fail("after" + log + ": " + bad);
					break;
				}
			}
		});
	}
	return R.finish();
}
