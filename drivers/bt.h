// reference model of block tensors, independent of the library's own structural code
#pragma once
#include "common.h"
#include "blockTensor/btensor.h"
#include <torch/torch.h>

using namespace quantit;
using namespace quantit::conserved;
using idx_t = std::vector<int64_t>;
using Rng = std::mt19937_64;

inline int rnd(Rng &g, int lo, int hi) { return lo + int(g() % uint64_t(hi - lo + 1)); }

// what a block tensor should be: sections per dimension, selection rule, blocks
struct Ref
{
	std::vector<std::vector<std::pair<int64_t, any_quantity>>> dims;
	any_quantity sel;
	std::map<idx_t, torch::Tensor> blocks;
	size_t rank() const { return dims.size(); }
	idx_t nsec() const
	{
		idx_t r;
		for (auto &d : dims)
			r.push_back(d.size());
		return r;
	}
	int64_t total(size_t d) const
	{
		int64_t s = 0;
		for (auto &x : dims[d])
			s += x.first;
		return s;
	}
	idx_t sizes() const
	{
		idx_t r;
		for (size_t d = 0; d < rank(); ++d)
			r.push_back(total(d));
		return r;
	}
	idx_t bsizes(const idx_t &b) const
	{
		idx_t r;
		for (size_t d = 0; d < rank(); ++d)
			r.push_back(dims[d][b[d]].first);
		return r;
	}
	any_quantity bcharge(const idx_t &b) const
	{
		any_quantity q = sel.neutral();
		for (size_t d = 0; d < rank(); ++d)
			q += dims[d][b[d]].second;
		return q;
	}
	bool allowed(const idx_t &b) const { return bcharge(b) == any_quantity_cref(sel); }
	// every block index of the grid, last dimension fastest
	std::vector<idx_t> grid() const
	{
		std::vector<idx_t> out;
		idx_t n = nsec(), b(rank(), 0);
		for (auto x : n)
			if (x == 0)
				return out;
		while (true)
		{
			out.push_back(b);
			int d = int(rank()) - 1;
			for (; d >= 0; --d)
			{
				if (++b[d] < n[d])
					break;
				b[d] = 0;
			}
			if (d < 0)
				break;
		}
		return out;
	}
	std::vector<idx_t> allowed_blocks() const
	{
		std::vector<idx_t> r;
		for (auto &b : grid())
			if (allowed(b))
				r.push_back(b);
		return r;
	}
	idx_t offset(const idx_t &b) const
	{
		idx_t o;
		for (size_t d = 0; d < rank(); ++d)
		{
			int64_t s = 0;
			for (int64_t i = 0; i < b[d]; ++i)
				s += dims[d][i].first;
			o.push_back(s);
		}
		return o;
	}
	torch::Tensor dense() const
	{
		auto t = torch::zeros(sizes(), torch::kDouble);
		for (auto &kb : blocks)
		{
			auto v = t;
			auto o = offset(kb.first);
			auto s = bsizes(kb.first);
			for (size_t d = 0; d < rank(); ++d)
				v = v.narrow(d, o[d], s[d]);
			v.copy_(kb.second);
		}
		return t;
	}
	std::string describe() const
	{
		std::ostringstream o;
		o << "dims";
		for (auto &d : dims)
		{
			o << " (";
			for (auto &x : d)
				o << x.first << ":" << fmt::format("{}", x.second) << " ";
			o << ")";
		}
		o << " sel " << fmt::format("{}", sel) << " blocks";
		for (auto &b : blocks)
			o << " " << str(b.first);
		return o.str();
	}
	btensor::vec_list_t veclist() const
	{
		btensor::vec_list_t l;
		for (auto &d : dims)
		{
			l.emplace_back();
			for (auto &x : d)
				l.back().emplace_back(size_t(x.first), x.second);
		}
		return l;
	}
	// the library's tensor with this content, blocks inserted one by one in a scrambled order
	btensor make(Rng *g = nullptr) const
	{
		btensor t(veclist(), sel, torch::TensorOptions().dtype(torch::kDouble));
		std::vector<idx_t> ks;
		for (auto &b : blocks)
			ks.push_back(b.first);
		if (g)
			std::shuffle(ks.begin(), ks.end(), *g);
		for (auto &k : ks)
			t.block(k) = blocks.at(k).clone();
		return t;
	}
};

// small integers, none zero: exact arithmetic, and no accidental equality of blocks
inline torch::Tensor fill(const idx_t &shape, Rng &g)
{
	auto t = torch::empty(shape, torch::kDouble);
	auto p = t.data_ptr<double>();
	for (int64_t i = 0; i < t.numel(); ++i)
	{
		int v = rnd(g, 1, 9);
		p[i] = rnd(g, 0, 1) ? v : -v;
	}
	return t;
}

// read a library tensor back through the public queries only
inline Ref read(const btensor &b)
{
	Ref r;
	r.sel = any_quantity(any_quantity_cref(b.selection_rule));
	auto cv = b.get_cvals();
	size_t at = 0;
	for (int64_t d = 0; d < b.dim(); ++d)
	{
		r.dims.emplace_back();
		size_t n = b.section_number(d);
		auto ss = b.section_sizes(d);
		auto it = std::get<0>(ss);
		for (size_t s = 0; s < n; ++s, ++at, ++it)
			r.dims.back().emplace_back(*it, any_quantity(any_quantity_cref(cv[at])));
	}
	for (auto &kb : b)
		r.blocks.emplace(std::get<0>(kb), std::get<1>(kb));
	return r;
}
// validity in the sense of property B03; empty string when valid
inline std::string invalid(const btensor &b)
{
	size_t tot = 0;
	if (b.dim() != int64_t(b.section_numbers().size()))
		return "rank differs from the number of dimensions";
	for (int64_t d = 0; d < b.dim(); ++d)
		tot += b.section_number(d);
	if (b.get_cvals().size() != tot)
		return "number of charges differs from the number of sections";
	if (b.dim() > 0)
	{
		auto f = std::get<0>(b.section_sizes(0));
		auto l = std::get<1>(b.section_sizes(b.dim() - 1));
		if (size_t(l - f) != tot)
			return "number of sizes differs from the number of sections";
	}
	Ref r = read(b);
	const idx_t *prev = nullptr;
	size_t n = 0;
	for (auto &kb : b)
	{
		auto &k = std::get<0>(kb);
		++n;
		if (k.size() != r.rank())
			return "block index of wrong length " + str(k);
		for (size_t d = 0; d < r.rank(); ++d)
			if (k[d] < 0 || k[d] >= int64_t(r.dims[d].size()))
				return "block index outside the grid " + str(k);
		if (std::get<1>(kb).sizes().vec() != r.bsizes(k))
			return "block " + str(k) + " has shape " + str(std::get<1>(kb).sizes().vec()) + " instead of " + str(r.bsizes(k));
		if (!r.allowed(k))
			return "block " + str(k) + " violates the selection rule";
		if (prev && !(*prev < k))
			return "block list not strictly sorted";
		prev = &k;
	}
	return "";
}
inline bool same_sections(const Ref &a, const Ref &b)
{
	if (a.rank() != b.rank())
		return false;
	for (size_t d = 0; d < a.rank(); ++d)
	{
		if (a.dims[d].size() != b.dims[d].size())
			return false;
		for (size_t s = 0; s < a.dims[d].size(); ++s)
			if (a.dims[d][s].first != b.dims[d][s].first || a.dims[d][s].second != b.dims[d][s].second)
				return false;
	}
	return true;
}
inline bool same_struct(const Ref &a, const Ref &b) { return same_sections(a, b) && a.sel == b.sel; }
inline bool same_tensor(const torch::Tensor &a, const torch::Tensor &b)
{
	return a.sizes() == b.sizes() && (a.numel() == 0 || torch::equal(a.to(torch::kDouble), b.to(torch::kDouble)));
}
inline bool close_tensor(const torch::Tensor &a, const torch::Tensor &b, double tol = 1e-9)
{
	return a.sizes() == b.sizes() && (a.numel() == 0 || torch::allclose(a.to(torch::kDouble), b.to(torch::kDouble), tol, tol));
}
// same block set and same content
inline bool same_blocks(const Ref &a, const Ref &b)
{
	if (a.blocks.size() != b.blocks.size())
		return false;
	for (auto i = a.blocks.begin(), j = b.blocks.begin(); i != a.blocks.end(); ++i, ++j)
		if (i->first != j->first || !same_tensor(i->second, j->second))
			return false;
	return true;
}
inline Ref deep(const Ref &r)
{
	Ref o = r;
	for (auto &b : o.blocks)
		b.second = b.second.clone();
	return o;
}
inline bool same_all(const Ref &a, const Ref &b) { return same_struct(a, b) && same_blocks(a, b); }

// ---- charges
struct Group
{
	const char *name;
	std::function<any_quantity(Rng &)> any;
	any_quantity zero;
};
inline const std::vector<Group> &groups()
{
	static const std::vector<Group> G = {
	    {"C2", [](Rng &g) { return any_quantity(C<2>(rnd(g, 0, 1))); }, any_quantity(C<2>(0))},
	    {"Z", [](Rng &g) { return any_quantity(Z(rnd(g, -2, 2))); }, any_quantity(Z(0))},
	    {"C3", [](Rng &g) { return any_quantity(C<3>(rnd(g, 0, 2))); }, any_quantity(C<3>(0))},
	    {"C5", [](Rng &g) { return any_quantity(C<5>(rnd(g, 0, 4))); }, any_quantity(C<5>(0))},
	    {"C1", [](Rng &g) { return any_quantity(C<1>(0)); }, any_quantity(C<1>(0))},
	    {"C2xZ", [](Rng &g) { return any_quantity(C<2>(rnd(g, 0, 1)), Z(rnd(g, -1, 1))); }, any_quantity(C<2>(0), Z(0))},
	    {"C3xC2xZ", [](Rng &g) { return any_quantity(C<3>(rnd(g, 0, 2)), C<2>(rnd(g, 0, 1)), Z(rnd(g, -1, 1))); }, any_quantity(C<3>(0), C<2>(0), Z(0))}};
	return G;
}
inline std::vector<std::pair<int64_t, any_quantity>> rnd_dim(Rng &g, const Group &G, int maxsec, int maxsize)
{
	std::vector<std::pair<int64_t, any_quantity>> d;
	int n = rnd(g, 1, maxsec);
	for (int i = 0; i < n; ++i)
		d.emplace_back(rnd(g, 1, maxsize), G.any(g));
	return d;
}
// random structure; the selection rule is the charge of a random block, so that at least one block is allowed
inline Ref rnd_struct(Rng &g, const Group &G, int rank, int maxsec = 3, int maxsize = 3)
{
	Ref r;
	for (int d = 0; d < rank; ++d)
		r.dims.push_back(rnd_dim(g, G, maxsec, maxsize));
	r.sel = G.zero;
	if (rnd(g, 0, 3))
	{
		auto gr = r.grid();
		r.sel = r.bcharge(gr[g() % gr.size()]);
	}
	return r;
}
// fill a random subset of the allowed blocks (percent chance each)
inline void rnd_blocks(Ref &r, Rng &g, int percent = 70)
{
	for (auto &b : r.allowed_blocks())
		if (rnd(g, 0, 99) < percent)
			r.blocks[b] = fill(r.bsizes(b), g);
}
inline Ref rnd_ref(Rng &g, const Group &G, int rank, int maxsec = 3, int maxsize = 3)
{
	Ref r = rnd_struct(g, G, rank, maxsec, maxsize);
	int pc[] = {0, 40, 70, 100};
	rnd_blocks(r, g, pc[rnd(g, 0, 3)]);
	return r;
}
