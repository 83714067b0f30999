// reshape and reshape_as of block tensors against the reference model
#include "bt.h"

// dimensions grouped at the given split points, row major
static Ref grouped(const Ref &r, const idx_t &splits)
{
	idx_t g{0};
	g.insert(g.end(), splits.begin(), splits.end());
	g.push_back(r.rank());
	Ref o;
	o.sel = r.sel;
	for (size_t k = 0; k + 1 < g.size(); ++k)
	{
		std::vector<std::pair<int64_t, any_quantity>> cur{{1, r.sel.neutral()}};
		for (int64_t d = g[k]; d < g[k + 1]; ++d)
		{
			std::vector<std::pair<int64_t, any_quantity>> next;
			for (auto &c : cur)
				for (auto &s : r.dims[d])
					next.emplace_back(c.first * s.first, c.second * s.second);
			cur = next;
		}
		o.dims.push_back(cur);
	}
	for (auto &kb : r.blocks)
	{
		idx_t key, shape;
		for (size_t k = 0; k + 1 < g.size(); ++k)
		{
			int64_t i = 0, n = 1;
			for (int64_t d = g[k]; d < g[k + 1]; ++d)
			{
				i = i * r.dims[d].size() + kb.first[d];
				n *= r.dims[d][kb.first[d]].first;
			}
			key.push_back(i);
			shape.push_back(n);
		}
		o.blocks[key] = kb.second.contiguous().reshape(shape);
	}
	return o;
}
static void one(const Ref &r, Rng &g)
{
	auto &R = Rep::get();
	int n = r.rank();
	idx_t s;
	bool empties = rnd(g, 0, 4) == 0;
	for (int d = 1; d < n; ++d)
		if (rnd(g, 0, 1))
			s.push_back(d);
	if (empties)
	{
		for (int k = rnd(g, 1, 3); k > 0; --k)
			s.push_back(rnd(g, 0, n));
		std::sort(s.begin(), s.end());
	}
	R.begin("reshape " + r.describe() + " at " + str(s));
	guarded([&] {
		btensor t = r.make(&g);
		if (rnd(g, 0, 2) == 0) // blocks that are not contiguous
			for (auto &kb : t)
				if (std::get<1>(kb).dim() > 1)
					std::get<1>(kb) = std::get<1>(kb).transpose(0, 1).contiguous().transpose(0, 1);
		Ref want = grouped(r, s);
		btensor q = t.reshape(torch::IntArrayRef(s));
		R.check(invalid(q).empty(), ("the reshaped tensor is not valid: " + invalid(q)).c_str());
		R.check(same_struct(read(q), want), "sections, charges or selection rule of the reshaped tensor");
		R.check(same_blocks(read(q), want), "blocks of the reshaped tensor");
		R.check(same_all(read(t), r), "the operand changed");
		btensor back = q.reshape_as(t);
		R.check(same_all(read(back), r) && invalid(back).empty(), "reshaping back does not restore the tensor");
		btensor shape = quantit::sparse_zeros_like(q);
		R.check(same_all(read(t.reshape_as(shape)), want), "reshape_as the grouped structure");
		R.check(same_all(read(t.reshape_as<quantit::reshape_mode::overwrite_c_vals>(q)), want), "overwriting the charges by the same ones");
		R.check(same_all(read(q), want) && same_all(read(t), r), "an operand changed");
	});
	// inconsistent groupings
	idx_t m = s;
	int kind = rnd(g, 0, 2);
	if (kind == 0)
		m.push_back(n + rnd(g, 1, 3));
	else if (kind == 1)
		m.insert(m.begin(), -rnd(g, 1, 3));
	else if (n >= 2)
	{
		int a = rnd(g, 1, n), b = rnd(g, 0, a - 1);
		m = {a, b};
	}
	else
		return;
	R.begin("inconsistent grouping " + r.describe() + " at " + str(m));
	guarded([&] {
		btensor t = r.make(&g);
		R.check(throws([&] { t.reshape(torch::IntArrayRef(m)); }), "accepted");
		R.check(same_all(read(t), r), "refused but the tensor changed");
	});
	// a target that differs by one section, one size or one charge
	Ref o = grouped(r, s);
	o.blocks.clear();
	if (o.rank() == 0)
		return;
	int d = rnd(g, 0, o.rank() - 1), c = rnd(g, 0, o.dims[d].size() - 1);
	int what = rnd(g, 0, 2);
	if (what == 0)
		o.dims[d].push_back(o.dims[d][0]);
	else if (what == 1)
		++o.dims[d][c].first;
	else
	{
		auto old = o.dims[d][c].second;
		auto &G = groups()[g() % groups().size()];
		for (auto &H : groups())
			try
			{
				auto q = H.any(g);
				bool same = q * old == old; // raises for another group
				if (!same)
				{
					o.dims[d][c].second = q * old;
					break;
				}
			}
			catch (const std::exception &)
			{
			}
		if (o.dims[d][c].second == old)
			return;
		(void)G;
	}
	R.begin("incompatible target " + r.describe() + " onto " + o.describe());
	guarded([&] {
		btensor t = r.make(&g), u = o.make(&g);
		R.check(throws([&] { t.reshape_as(u); }), "accepted");
		if (what < 2)
			R.check(throws([&] { t.reshape_as<quantit::reshape_mode::overwrite_c_vals>(u); }), "accepted while overwriting the charges");
		else
		{
			try
			{
				btensor w = t.reshape_as<quantit::reshape_mode::overwrite_c_vals>(u);
				R.check(invalid(w).empty() && same_struct(read(w), o), "charges overwritten: not valid");
				Ref want = o;
				want.blocks = grouped(r, s).blocks;
				R.check(same_blocks(read(w), want), "charges overwritten: blocks");
			}
			catch (const std::exception &e)
			{
				bool ok = true;
				for (auto &kb : grouped(r, s).blocks)
					ok = ok && o.allowed(kb.first);
				R.check(!ok, "charges overwritten: refused though every block is allowed");
			}
		}
		R.check(same_all(read(t), r) && same_all(read(u), o), "refused but an operand changed");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 5; ++rank)
		for (int i = 0; i < (R.thorough() ? 2500 : 200); ++i)
			one(rnd_ref(g, groups()[g() % groups().size()], rank, rank > 3 ? 3 : 4, rank > 3 ? 2 : 4), g);
	return R.finish();
}
