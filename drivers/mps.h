// reference helpers for tensor networks: everything is done on dense copies
#pragma once
#include "MPT.h"
#include "bt.h"
using T = torch::Tensor;

inline T dense_of(const T &t) { return t; }
inline T dense_of(const btensor &t) { return t.to_dense(); }
template <class M>
std::vector<T> densify(const M &m)
{
	std::vector<T> v;
	for (auto &t : m)
		v.push_back(dense_of(t).clone());
	return v;
}
// the state, or the operator, represented by a network
inline T contract_all(const std::vector<T> &v)
{
	T s = v[0];
	for (size_t i = 1; i < v.size(); ++i)
		s = v[0].dim() == 3 ? torch::tensordot(s, v[i], {s.dim() - 1}, {0}) : torch::tensordot(s, v[i], {s.dim() - 2}, {0});
	return s;
}
inline bool bonds_match(const std::vector<T> &v, int rank = 3)
{
	for (auto &t : v)
		if (t.dim() != rank)
			return false;
	for (size_t i = 0; i < v.size(); ++i)
	{
		if (i + 1 < v.size() && v[i].size(2) != v[i + 1].size(0))
			return false;
	}
	return true;
}
inline bool left_isometry(const T &t, double tol = 1e-8)
{
	T m = t.reshape({-1, t.size(2)});
	return close_tensor(torch::mm(m.conj().t(), m), torch::eye(t.size(2), m.options()), tol);
}
inline bool right_isometry(const T &t, double tol = 1e-8)
{
	T m = t.reshape({t.size(0), -1});
	return close_tensor(torch::mm(m, m.conj().t()), torch::eye(t.size(0), m.options()), tol);
}
inline bool same_list(const std::vector<T> &a, const std::vector<T> &b)
{
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); ++i)
		if (a[i].sizes() != b[i].sizes() || a[i].dtype() != b[i].dtype() || !torch::equal(a[i], b[i]))
			return false;
	return true;
}
inline T rfill(const idx_t &s, Rng &g)
{
	auto t = torch::empty(s, torch::kDouble);
	auto p = t.data_ptr<double>();
	for (int64_t i = 0; i < t.numel(); ++i)
		p[i] = int(g() % 2001) / 1000.0 - 1.0;
	return t;
}
// random network of dense tensors, bonds chosen at random
inline std::vector<T> rnd_chain(Rng &g, int L, bool cplx)
{
	std::vector<T> v;
	int64_t b = rnd(g, 1, 2);
	for (int i = 0; i < L; ++i)
	{
		int64_t c = rnd(g, 1, 4);
		idx_t s = {b, rnd(g, 1, 3), c};
		v.push_back(cplx ? torch::complex(rfill(s, g), rfill(s, g)) : rfill(s, g));
		b = c;
	}
	return v;
}
// random valid block network: the bond of a tensor is the inverse of the left bond of the next one
inline std::vector<btensor> rnd_bchain(Rng &g, const Group &G, int L)
{
	std::vector<btensor> v;
	auto left = std::vector<std::pair<int64_t, any_quantity>>{{1, G.zero}};
	for (int i = 0; i < L; ++i)
	{
		Ref r;
		r.sel = G.zero;
		auto phys = rnd_dim(g, G, 3, 2);
		// charges that the two other dimensions can reach
		std::vector<std::pair<int64_t, any_quantity>> right;
		for (auto &l : left)
			for (auto &p : phys)
			{
				auto q = (l.second + p.second).inverse();
				bool known = false;
				for (auto &x : right)
					known = known || x.second == q;
				if (!known && right.size() < 4)
					right.emplace_back(rnd(g, 1, 2), q);
			}
		r.dims = {left, phys, right};
		for (auto &b : r.allowed_blocks())
			r.blocks.emplace(b, rfill(r.bsizes(b), g));
		v.push_back(r.make(&g));
		left = right;
		for (auto &x : left)
			x.second = x.second.inverse();
	}
	return v;
}
