// instantiation of the block map for the contracts: the verified text is include/blockTensor/flat_map.h itself
#include "blockTensor/flat_map.h"
namespace verif
{
using Map = quantit::flat_map<int64_t, double>;
using Seq = Map::content_t;
double combine(double, double);
double single(double);
struct Collision
{
	void operator()(double &a, const double &b) const { a = combine(a, b); }
};
struct NoCollision
{
	void operator()(double &a) const { a = single(a); }
};
struct PairCollision
{
	void operator()(std::pair<int64_t, double> &, std::pair<int64_t, double> &) const {}
};
void use(Map &m, const Map &c, Map &o, Seq &s, int64_t k, double v, std::pair<int64_t, double> e)
{
	m.at(k), c.at(k), m[k], m.find(k), c.find(k), c.count(k), c.contains(k), m.equal_range(k), c.equal_range(k);
	m.lower_bound(k), c.lower_bound(k), m.upper_bound(k), c.upper_bound(k);
	m.insert(c.find(k), e), m.insert(c.find(k), std::move(e)), m.emplace(c.find(k), k, v), m.emplace(m.find(k), k, v);
	const auto &ce = e;
	m.insert(ce), m.insert(std::move(e));
	m.erase(m.find(k)), m.erase(c.find(k)), m.erase(c.find(k), c.find(k)), m.erase(k), m.swap(o);
	m.insert(c.begin(), c.end(), Collision(), NoCollision());
	m.insert(c.begin(), c.end(), Collision());
	m.insert(c.begin(), c.end());
	m.merge(c, Collision(), NoCollision()), m.merge(c, Collision()), m.merge(c);
	m.merge(std::move(o), Collision(), NoCollision()), m.merge(std::move(o), Collision());
	m.insert(s.begin(), s.end(), PairCollision());
	Map a(s), b(std::move(s)), d(s.begin(), s.end()), f{e, e}, g(c), h(std::move(o)), i(10);
	m = c, m = std::move(o), m == c;
	m.begin(), m.end(), c.begin(), c.end(), c.cbegin(), c.cend(), m.size(), m.empty(), m.clear(), m.reserve(3), m.capacity(), m.resize(2);
	m.rbegin(), c.rbegin();
}
} // namespace verif
