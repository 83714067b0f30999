// composition of shapes, views and assignment through views against the reference model
#include "bt.h"

struct Pick // requested element of each dimension (-1: keep) translated to sections
{
	idx_t req, sec, off;
};
static Pick pick(const Ref &r, const idx_t &req)
{
	Pick p{req, idx_t(r.rank(), -1), idx_t(r.rank(), -1)};
	for (size_t d = 0; d < r.rank(); ++d)
		if (req[d] >= 0)
		{
			int64_t e = req[d], s = 0;
			while (e >= r.dims[d][s].first)
				e -= r.dims[d][s++].first;
			p.sec[d] = s;
			p.off[d] = e;
		}
	return p;
}
static Ref viewed(const Ref &r, const Pick &p, bool keep_rank)
{
	Ref o;
	o.sel = r.sel;
	for (size_t d = 0; d < r.rank(); ++d)
		if (p.req[d] < 0)
			o.dims.push_back(r.dims[d]);
		else
		{
			auto q = r.dims[d][p.sec[d]].second;
			if (keep_rank)
				o.dims.push_back({{1, q}});
			else
				o.sel = o.sel * q.inverse();
		}
	for (auto &kb : r.blocks)
	{
		idx_t k;
		auto v = kb.second;
		bool in = true;
		for (size_t d = 0; d < r.rank(); ++d)
			if (p.req[d] < 0)
				k.push_back(kb.first[d]);
			else
			{
				in = in && kb.first[d] == p.sec[d];
				if (keep_rank)
					k.push_back(0);
			}
		if (!in)
			continue;
		for (int d = int(r.rank()) - 1; d >= 0; --d)
			if (p.req[d] >= 0)
				v = keep_rank ? v.narrow(d, p.off[d], 1) : v.select(d, p.off[d]);
		o.blocks[k] = v;
	}
	return o;
}
static Ref product(const Ref &a, const Ref &b)
{
	Ref o;
	o.sel = a.sel * b.sel;
	o.dims = a.dims;
	o.dims.insert(o.dims.end(), b.dims.begin(), b.dims.end());
	return o;
}
static void one(const Ref &r, Rng &g, const Group &G)
{
	auto &R = Rep::get();
	idx_t req;
	for (size_t d = 0; d < r.rank(); ++d)
		req.push_back(rnd(g, 0, 1) ? -1 : rnd(g, 0, r.total(d) - 1));
	Pick p = pick(r, req);
	Ref want = viewed(r, p, false), wantk = viewed(r, p, true);
	R.begin("view " + r.describe() + " at " + str(req));
	guarded([&] {
		btensor t = r.make(&g);
		btensor s = t.shape_from(req);
		R.check(same_struct(read(s), want), "structure of the restricted shape");
		R.check(s.begin() == s.end(), "the restricted shape holds blocks");
		btensor v = t.basic_create_view(req);
		R.check(invalid(v).empty(), ("the view is not valid: " + invalid(v)).c_str());
		R.check(same_all(read(v), want), "structure or blocks of the view");
		btensor k = t.basic_create_view(req, true);
		R.check(invalid(k).empty(), ("the view of same rank is not valid: " + invalid(k)).c_str());
		R.check(same_all(read(k), wantk), "structure or blocks of the view of same rank");
		R.check(same_all(read(t), r), "the tensor viewed changed");
	});
	R.begin("assignment " + r.describe() + " at " + str(req));
	guarded([&] {
		btensor t = r.make(&g);
		Ref val = want;
		val.blocks.clear();
		int pc[] = {0, 50, 100};
		rnd_blocks(val, g, pc[rnd(g, 0, 2)]);
		btensor b = val.make(&g);
		Ref after = deep(r);
		for (auto &kb : val.blocks)
		{
			idx_t key = p.sec;
			size_t x = 0;
			for (auto &e : key)
				if (e == -1)
					e = kb.first[x++];
			if (!after.blocks.count(key))
				after.blocks[key] = torch::zeros(r.bsizes(key), torch::kDouble);
			auto v = after.blocks[key];
			for (int d = int(r.rank()) - 1; d >= 0; --d)
				if (req[d] >= 0)
					v = v.select(d, p.off[d]);
			v.copy_(kb.second);
		}
		btensor &ret = t.basic_index_put_(req, b);
		R.check(&ret == &t && same_all(read(t), after), "content after the assignment of a block tensor");
		R.check(invalid(t).empty(), "not valid after the assignment");
		R.check(same_all(read(b), val), "the value assigned changed");
		btensor u = r.make(&g);
		auto dense = val.dense();
		u.basic_index_put_(req, dense);
		R.check(same_all(read(u), after), "content after the assignment of a dense tensor");
		R.check(same_tensor(dense, val.dense()), "the dense value changed");
		// a value of another structure
		Ref bad = want;
		bad.blocks.clear();
		auto q = G.any(g);
		int what = rnd(g, 0, 2);
		if (what == 0 && bad.rank())
			++bad.dims[rnd(g, 0, bad.rank() - 1)][0].first;
		else if (what == 1 && bad.rank() && q != G.zero)
		{
			auto &x = bad.dims[rnd(g, 0, bad.rank() - 1)][0].second;
			x = x * q;
		}
		else if (q != G.zero)
			bad.sel = bad.sel * q;
		else
			bad.dims.push_back({{1, G.zero}});
		rnd_blocks(bad, g, 50);
		btensor bb = bad.make(&g);
		R.check(throws([&] { t.basic_index_put_(req, bb); }), ("assignment of a value of structure " + bad.describe()).c_str());
		auto dz = bad.sizes();
		if (dz != want.sizes())
			R.check(throws([&] { t.basic_index_put_(req, torch::ones(dz, torch::kDouble)); }), "assignment of a dense value of other sizes");
		R.check(same_all(read(t), after) && invalid(t).empty(), "refused but the tensor changed");
	});
	idx_t m = req;
	int kind = rnd(g, 0, 3);
	if (kind == 0 || m.empty())
		m.push_back(-1);
	else if (kind == 1)
		m.pop_back();
	else
	{
		size_t d = rnd(g, 0, m.size() - 1);
		m[d] = kind == 2 ? r.total(d) + rnd(g, 0, 2) : -2 - rnd(g, 0, 2);
	}
	R.begin("view refused " + r.describe() + " at " + str(m));
	guarded([&] {
		btensor t = r.make(&g);
		R.check(throws([&] { t.shape_from(m); }), "shape accepted");
		R.check(throws([&] { t.basic_create_view(m); }) && throws([&] { t.basic_create_view(m, true); }), "view accepted");
		R.check(throws([&] { t.basic_index_put_(m, btensor(want.veclist(), want.sel)); }), "assignment accepted");
		R.check(same_all(read(t), r), "refused but the tensor changed");
	});
	Ref a = rnd_ref(g, G, rnd(g, 0, 3)), b = rnd_ref(g, G, rnd(g, 0, 2));
	R.begin("composition of " + r.describe() + " and " + a.describe() + " and " + b.describe());
	guarded([&] {
		btensor t = r.make(&g), u = a.make(&g), w = b.make(&g);
		Ref p2 = product(r, a), p3 = product(p2, b), p1 = r;
		p1.blocks.clear();
		R.check(same_all(read(t.tensor_product_shape(u)), p2), "tensor_product_shape");
		R.check(same_all(read(quantit::shape_from(t, u)), p2), "shape of two");
		R.check(same_all(read(quantit::shape_from(t, u, w)), p3), "shape of three");
		R.check(same_all(read(quantit::shape_from(std::vector<btensor>{t})), p1), "shape of one");
		R.check(invalid(quantit::shape_from(t, u, w)).empty(), "not valid");
		R.check(same_all(read(t), r) && same_all(read(u), a) && same_all(read(w), b), "an operand changed");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 4; ++rank)
		for (int i = 0; i < (R.thorough() ? 2500 : 150); ++i)
		{
			const Group &G = groups()[g() % groups().size()];
			one(rnd_ref(g, G, rank, rank > 3 ? 3 : 4, rank > 3 ? 2 : 4), g, G);
		}
	return R.finish();
}
