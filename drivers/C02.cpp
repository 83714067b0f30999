// random histories of type erased charges against component arithmetic
#include "common.h"
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include "Conserved/quantity.h"
using namespace quantit;
using namespace quantit::conserved;

struct Ref
{
	int type = 0;
	std::vector<long> v;
};
static const std::vector<std::vector<long>> mods = {{0}, {0, 0, 3}, {2, 6}, {2, 0}, {0, 5, 0, 7}, {4}};
static any_quantity make(const Ref &r)
{
	auto &v = r.v;
	switch (r.type)
	{
	case 0: return any_quantity(Z(v[0]));
	case 1: return any_quantity(Z(v[0]), Z(v[1]), C<3>(v[2]));
	case 2: return any_quantity(quantity<C<2>, C<6>>(C<2>(v[0]), C<6>(v[1])));
	case 3: return any_quantity(C<2>(v[0]), Z(v[1]));
	case 4: return any_quantity(Z(v[0]), C<5>(v[1]), Z(v[2]), C<7>(v[3]));
	default: return any_quantity(C<4>(v[0]));
	}
}
static std::string show(const Ref &r) { return "type" + std::to_string(r.type) + str(r.v); }
static long rep(long x, long m) { return m ? ((x % m) + m) % m : x; }
static Ref op(const Ref &a, const Ref &b)
{
	Ref r = a;
	for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = rep(a.v[i] + b.v[i], mods[a.type][i]);
	return r;
}
static Ref inv(const Ref &a)
{
	Ref r = a;
	for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = rep(-a.v[i], mods[a.type][i]);
	return r;
}
static std::mt19937_64 rng;
static long rnd(long n) { return rng() % n; }
static Ref rnd_ref(int type)
{
	Ref r;
	r.type = type;
	for (long m : mods[type]) r.v.push_back(m ? rnd(m) : rnd(9) - 4);
	return r;
}
template <class F>
static bool bad_cast(F &&f)
{
	try
	{
		f();
	}
	catch (const std::bad_cast &)
	{
		return true;
	}
	return false;
}

int main(int argc, char **argv)
{
	Rep &R = Rep::get();
	R.init(argc, argv);
	rng.seed(R.seed);
	int hist = R.thorough() ? 4000 : 400;
	for (int h = 0; h < hist; ++h)
	{
		const int P = 6;
		std::vector<Ref> m;
		std::vector<any_quantity> q;
		std::string log;
		for (int i = 0; i < P; ++i)
		{
			m.push_back(rnd_ref(rnd(mods.size())));
			q.push_back(make(m.back()));
			log += show(m.back()) + " ";
		}
		auto verify = [&](const std::string &w) {
			for (int i = 0; i < P; ++i)
				if (!(q[i] == make(m[i])) || q[i] != make(m[i]) || !q[i].get().same_type(make(m[i]).get()))
				{
					R.fail("after " + w + " element " + std::to_string(i) + " should be " + show(m[i]));
					m[i] = rnd_ref(m[i].type);
					q[i] = make(m[i]).get();
				}
		};
		R.begin(log);
		guarded([&] {
			verify("construction");
			for (int step = 0; step < 60; ++step)
			{
				int i = rnd(P), j = rnd(P), k = rnd(P), what = rnd(17);
				const bool same = m[i].type == m[j].type;
				std::string w = "step " + std::to_string(step) + " op " + std::to_string(what) + " on " + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k);
				const auto &cj = q[j];
				const vquantity &vj = q[j].get();
				const vquantity &vi = q[i].get();
				switch (what)
				{
				case 0: q[i] = cj; m[i] = m[j]; break;
				case 1: q[i] = vj; m[i] = m[j]; break;
				case 2: { any_quantity t(cj); q[i] = std::move(t); m[i] = m[j]; break; }
				case 3: { any_quantity t(vj); q[i] = t; t.inverse_(); m[i] = m[j]; break; }
				case 4: if (same) { q[i] *= vj; m[i] = op(m[i], m[j]); } else R.check(bad_cast([&] { q[i] *= vj; }), "no bad_cast from *="); break;
				case 5: if (same) { q[i] += vj; m[i] = op(m[i], m[j]); } else R.check(bad_cast([&] { q[i] += vj; }), "no bad_cast from +="); break;
				case 6: if (same) { bool c = rnd(2); q[i].op(vj, c); if (c) m[i] = op(m[i], m[j]); } else R.check(bad_cast([&] { q[i].op(vj, false); }), "no bad_cast from op"); break;
				case 7: if (same) { q[k] = vi * vj; m[k] = op(m[i], m[j]); } else R.check(bad_cast([&] { (void)(vi * vj); }), "no bad_cast from *"); break;
				case 8: if (same) { q[k] = q[i] + q[j]; m[k] = op(m[i], m[j]); } else R.check(bad_cast([&] { (void)(q[i] + q[j]); }), "no bad_cast from +"); break;
				case 9: if (same) { q[k] = q[i].inverse() * q[j]; m[k] = op(inv(m[i]), m[j]); } break;
				case 10: if (same) { q[k] = vi * any_quantity(vj); m[k] = op(m[i], m[j]); } else R.check(bad_cast([&] { (void)(vi * any_quantity(vj)); }), "no bad_cast from * &&"); break;
				case 11: if (same) { q[k] = any_quantity(vi) + any_quantity(vj); m[k] = op(m[i], m[j]); } break;
				case 12: q[i].inverse_(); m[i] = inv(m[i]); break;
				case 13: q[k] = rnd(2) ? q[i].inverse() : vi.inverse(); m[k] = inv(m[i]); break;
				case 14: { q[k] = rnd(2) ? q[i].neutral() : vi.neutral(); m[k].type = m[i].type; m[k].v.assign(m[i].v.size(), 0); break; }
				case 15: { using std::swap; if (i != j) { q[i].swap(q[j]); std::swap(m[i], m[j]); } break; }
				default:
					if (same)
					{
						R.check((vi == vj) == (m[i].v == m[j].v) && (vi != vj) == (m[i].v != m[j].v), "equality");
						R.check((vi < vj) == (m[i].v < m[j].v) && (vi > vj) == (m[i].v > m[j].v), "ordering");
						long d = 0;
						for (size_t a = 0; a < m[i].v.size(); ++a) d += (m[i].v[a] - m[j].v[a]) * (m[i].v[a] - m[j].v[a]);
						R.check(distance2(vi, vj) == d, "distance");
					}
					else
						R.check(bad_cast([&] { (void)(vi == vj); }) && bad_cast([&] { (void)(vi != vj); }) && bad_cast([&] { (void)(vi < vj); }) && bad_cast([&] { (void)(vi > vj); }), "comparison of different composite types does not raise");
				}
				// keep the integers small
				for (int a = 0; a < P; ++a)
					for (long x : m[a].v)
						if (x > 10000 || x < -10000)
						{
							m[a] = rnd_ref(m[a].type);
							q[a] = make(m[a]);
						}
				verify(w);
			}
		});
	}
	return R.finish();
}
