// conversion between dense and block form against the reference model
#include "bt.h"

static torch::Tensor ints(const idx_t &shape, Rng &g, int zero_percent)
{
	auto t = torch::zeros(shape, torch::kDouble);
	auto p = t.data_ptr<double>();
	for (int64_t i = 0; i < t.numel(); ++i)
		if (rnd(g, 0, 99) >= zero_percent)
			p[i] = rnd(g, 0, 1) ? rnd(g, 1, 9) : -rnd(g, 1, 9);
	return t;
}
// the tensor dense restricted to the allowed blocks of norm above the cut-off
static Ref restricted(Ref r, const torch::Tensor &dense, double cutoff)
{
	r.blocks.clear();
	for (auto &b : r.allowed_blocks())
	{
		auto v = dense;
		auto o = r.offset(b);
		auto s = r.bsizes(b);
		for (size_t d = 0; d < r.rank(); ++d)
			v = v.narrow(d, o[d], s[d]);
		double n = std::sqrt((v * v).sum().item().toDouble());
		if (n > cutoff)
			r.blocks[b] = v.clone();
	}
	return r;
}
static void one(const Ref &r, Rng &g)
{
	auto &R = Rep::get();
	R.begin("to_dense " + r.describe());
	guarded([&] {
		btensor t = r.make(&g);
		auto d = t.to_dense();
		R.check(same_tensor(d, r.dense()), "dense content");
		R.check(d.scalar_type() == torch::kDouble, "type of the dense content");
		R.check(same_all(read(t), r), "the operand changed");
		// lossless both ways
		btensor u = quantit::from_basic_tensor_like(t, d);
		R.check(same_struct(read(u), r) && invalid(u).empty(), "structure of the tensor rebuilt");
		R.check(same_tensor(u.to_dense(), d), "dense content rebuilt");
		R.check(same_all(read(u), restricted(r, d, 1e-16)), "blocks rebuilt");
		for (auto &kb : t)
			std::get<1>(kb).mul_(2);
		R.check(same_tensor(d, r.dense()), "the dense form shares storage with the blocks");
	});
	auto dense = ints(r.sizes(), g, rnd(g, 0, 1) ? 0 : 70);
	double cut = rnd(g, 0, 1) ? 1e-16 : rnd(g, 0, 12) + 0.5;
	R.begin("from_basic_tensor " + r.describe() + " cut-off " + std::to_string(cut));
	guarded([&] {
		auto keep = dense.clone();
		Ref want = restricted(r, dense, cut);
		btensor t = quantit::from_basic_tensor(r.veclist(), r.sel, dense, cut, torch::TensorOptions().dtype(torch::kDouble));
		R.check(invalid(t).empty(), "not valid");
		R.check(same_all(read(t), want), "structure or blocks");
		R.check(same_tensor(t.to_dense(), want.dense()), "dense content");
		btensor s = r.make(&g);
		btensor l = quantit::from_basic_tensor_like(s, dense, cut);
		R.check(same_all(read(l), want) && same_all(read(s), r), "from_basic_tensor_like");
		R.check(same_tensor(dense, keep), "the dense tensor changed");
		for (auto &kb : t)
			std::get<1>(kb).add_(1);
		R.check(same_tensor(dense, keep), "the blocks share storage with the dense tensor");
	});
	R.begin("wrong shape " + r.describe());
	guarded([&] {
		btensor s = r.make(&g);
		idx_t sz = r.sizes();
		if (sz.size() && rnd(g, 0, 3))
			sz[rnd(g, 0, sz.size() - 1)] += rnd(g, 0, 1) ? 1 : -1;
		else if (sz.size() && rnd(g, 0, 1))
			sz.pop_back();
		else
			sz.push_back(1);
		R.check(throws([&] { quantit::from_basic_tensor_like(s, torch::ones(sz, torch::kDouble)); }), ("dense tensor of shape " + str(sz) + " accepted").c_str());
		R.check(throws([&] { quantit::from_basic_tensor(r.veclist(), r.sel, torch::ones(sz, torch::kDouble)); }), "accepted");
		R.check(same_all(read(s), r), "the shape changed");
	});
}
static void rule(Rng &g)
{
	auto &R = Rep::get();
	const Group &G = groups()[g() % groups().size()];
	Ref r = rnd_struct(g, G, 2, 4, 3);
	Ref s = r;
	s.sel = G.any(g);
	torch::Tensor dense;
	int kind = rnd(g, 0, 3);
	if (kind == 0)
		dense = ints(r.sizes(), g, rnd(g, 0, 1) ? 0 : 90);
	else
	{
		int pc[] = {0, 30, 60, 100};
		rnd_blocks(r, g, pc[rnd(g, 0, 3)]);
		dense = r.dense();
		if (kind == 2)
			dense = dense * (torch::rand(r.sizes()) > 0.7);
	}
	double cut = rnd(g, 0, 2) ? 0 : rnd(g, 1, 8) + 0.5;
	R.begin("find_selection_rule " + r.describe() + " kind " + std::to_string(kind) + " cut-off " + std::to_string(cut) + " values " + fmt::format("{}", fmt::join(std::vector<double>(dense.contiguous().data_ptr<double>(), dense.contiguous().data_ptr<double>() + dense.numel()), ",")));
	guarded([&] {
		// oracle: charges of the elements above the cut-off
		std::vector<any_quantity> q;
		idx_t sz = r.sizes();
		auto charge = [&](size_t d, int64_t e) {
			for (auto &x : r.dims[d])
			{
				if (e < x.first)
					return x.second;
				e -= x.first;
			}
			throw std::logic_error("driver");
		};
		bool exists = true;
		for (int64_t i = 0; i < sz[0]; ++i)
			for (int64_t j = 0; j < sz[1]; ++j)
				if (std::abs(dense.index({i, j}).item().toDouble()) > cut)
				{
					q.push_back(charge(0, i) * charge(1, j));
					exists = exists && q.back() == any_quantity_cref(q.front());
				}
		btensor shape = s.make(&g);
		auto keep = dense.clone();
		if (!exists)
			R.check(throws([&] { quantit::find_selection_rule(dense, shape, cut); }), "no rule exists, but one was returned");
		else
		{
			any_quantity f = quantit::find_selection_rule(dense, shape, cut);
			R.check(f == any_quantity_cref(q.empty() ? G.zero : q.front()), "wrong selection rule");
			if (cut == 0)
			{
				btensor b = quantit::from_basic_tensor(r.veclist(), f, dense);
				R.check(same_tensor(b.to_dense(), dense), "the conversion under the rule found loses elements");
			}
		}
		R.check(same_tensor(keep, dense) && same_all(read(shape), s), "an operand changed");
		auto wrong = torch::ones({sz[0] + rnd(g, 0, 1), sz[1] + 1}, torch::kDouble);
		R.check(throws([&] { quantit::find_selection_rule(wrong, shape, cut); }), "operator larger than the shape accepted");
		R.check(throws([&] { quantit::find_selection_rule(torch::ones({sz[0], sz[1], 1}), shape, cut); }), "operator of rank 3 accepted");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 4; ++rank)
		for (int i = 0; i < (R.thorough() ? 2000 : 130); ++i)
			one(rnd_ref(g, groups()[g() % groups().size()], rank, rank > 3 ? 3 : 4, rank > 3 ? 2 : 4), g);
	for (int i = 0; i < (R.thorough() ? 6000 : 500); ++i)
		rule(g);
	return R.finish();
}
