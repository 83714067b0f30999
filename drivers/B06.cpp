// contraction of block tensors against the contraction of the dense contents
#include "bt.h"

struct Pair
{
	Ref a, b;
	idx_t da, db;
};
// two compatible tensors and the dimensions to contract
static Pair rnd_pair(Rng &g, const Group &G, int ra, int rb, int n, int maxsec, int maxsize)
{
	Pair p;
	p.a = rnd_struct(g, G, ra, maxsec, maxsize);
	idx_t pa(ra), pb(rb);
	std::iota(pa.begin(), pa.end(), 0);
	std::iota(pb.begin(), pb.end(), 0);
	std::shuffle(pa.begin(), pa.end(), g);
	std::shuffle(pb.begin(), pb.end(), g);
	p.b.dims.resize(rb);
	for (int i = 0; i < rb; ++i)
		p.b.dims[pb[i]] = rnd_dim(g, G, maxsec, maxsize);
	for (int i = 0; i < n; ++i)
	{
		p.da.push_back(pa[i]);
		p.db.push_back(pb[i]);
		auto d = p.a.dims[pa[i]];
		for (auto &s : d)
			s.second = s.second.inverse();
		p.b.dims[pb[i]] = d;
	}
	for (Ref *r : {&p.a, &p.b})
	{
		auto gr = r->grid();
		r->sel = G.zero;
		r->sel = rnd(g, 0, 3) ? r->bcharge(gr[g() % gr.size()]) : G.any(g);
		int pc[] = {0, 40, 70, 100, 100};
		rnd_blocks(*r, g, pc[rnd(g, 0, 4)]);
	}
	return p;
}
static Ref shape_of(const Pair &p)
{
	Ref o;
	o.sel = p.a.sel * p.b.sel;
	for (size_t d = 0; d < p.a.rank(); ++d)
		if (std::find(p.da.begin(), p.da.end(), int64_t(d)) == p.da.end())
			o.dims.push_back(p.a.dims[d]);
	for (size_t d = 0; d < p.b.rank(); ++d)
		if (std::find(p.db.begin(), p.db.end(), int64_t(d)) == p.db.end())
			o.dims.push_back(p.b.dims[d]);
	return o;
}
static void one(const Pair &p, Rng &g, const Group &G)
{
	auto &R = Rep::get();
	std::string d = p.a.describe() + " with " + p.b.describe() + " over " + str(p.da) + str(p.db);
	R.begin("contraction of " + d);
	guarded([&] {
		btensor a = p.a.make(&g), b = p.b.make(&g);
		Ref want = shape_of(p);
		auto dense = torch::tensordot(p.a.dense(), p.b.dense(), p.da, p.db);
		btensor c = a.tensordot(b, p.da, p.db);
		std::string bad = invalid(c);
		R.check(bad.empty(), ("the contraction is not valid: " + bad).c_str());
		R.check(same_struct(read(c), want), "sections, charges or selection rule of the contraction");
		R.check(same_tensor(c.to_dense(), dense), "dense content of the contraction");
		R.check(same_all(read(a), p.a) && same_all(read(b), p.b), "an operand changed");
		R.check(same_all(read(quantit::tensordot(a, b, p.da, p.db)), read(c)), "free function");
		// the result owns its blocks
		for (auto &kb : c)
			std::get<1>(kb).fill_(3);
		R.check(same_all(read(a), p.a) && same_all(read(b), p.b), "the contraction shares storage with an operand");
		if (p.a.rank() <= 3)
		{
			btensor s = a.tensordot(a.conj(), p.da, p.da);
			R.check(same_tensor(s.to_dense(), torch::tensordot(p.a.dense(), p.a.dense(), p.da, p.da)) && invalid(s).empty(), "contraction with its own conjugate");
		}
	});
	// refused requests
	Pair q = p;
	int kind = rnd(g, 0, 5);
	std::string what;
	if (kind == 0)
	{
		q.da.push_back(0);
		what = "lists of different length";
	}
	else if (kind == 1 && p.da.size())
	{
		auto c = G.any(g);
		if (c == G.zero)
			return;
		auto &dim = q.b.dims[q.db[rnd(g, 0, q.db.size() - 1)]];
		auto &s = dim[rnd(g, 0, dim.size() - 1)].second;
		s = s * c;
		what = "charges that are not inverse of each other";
	}
	else if (kind == 2 && p.da.size())
	{
		auto &dim = q.b.dims[q.db[rnd(g, 0, q.db.size() - 1)]];
		++dim[rnd(g, 0, dim.size() - 1)].first;
		what = "sections of different sizes";
	}
	else if (kind == 3 && p.da.size())
	{
		auto &dim = q.b.dims[q.db[rnd(g, 0, q.db.size() - 1)]];
		dim.push_back({1, G.any(g)});
		what = "different numbers of sections";
	}
	else if (kind == 4 && p.da.size())
	{
		auto &l = rnd(g, 0, 1) ? q.da : q.db;
		l[rnd(g, 0, l.size() - 1)] = (&l == &q.da ? q.a : q.b).rank() + rnd(g, 0, 2);
		what = "a dimension beyond the rank";
	}
	else if (kind == 5 && p.da.size())
	{
		q.da.push_back(q.da[0]);
		q.db.push_back(q.db[0]);
		what = "a dimension listed twice";
	}
	else
		return;
	q.b.blocks.clear();
	rnd_blocks(q.b, g, rnd(g, 0, 1) ? 100 : 40);
	R.begin("contraction refused (" + what + ") of " + q.a.describe() + " with " + q.b.describe() + " over " + str(q.da) + str(q.db));
	guarded([&] {
		btensor a = q.a.make(&g), b = q.b.make(&g);
		R.check(throws([&] { a.tensordot(b, q.da, q.db); }), "accepted");
		R.check(same_all(read(a), q.a) && same_all(read(b), q.b), "refused but an operand changed");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int ra = 0; ra <= 4; ++ra)
		for (int rb = 0; rb <= 3; ++rb)
			for (int n = 0; n <= std::min(ra, rb); ++n)
				for (int i = 0; i < (R.thorough() ? 300 : 25); ++i)
				{
					const Group &G = groups()[g() % groups().size()];
					bool big = ra + rb - n > 4;
					one(rnd_pair(g, G, ra, rb, n, big ? 2 : 3, big ? 2 : 3), g, G);
				}
	// larger grids of sections, small sections
	for (int i = 0; i < (R.thorough() ? 1500 : 120); ++i)
	{
		const Group &G = groups()[g() % groups().size()];
		int ra = rnd(g, 1, 3), rb = rnd(g, 1, 3);
		one(rnd_pair(g, G, ra, rb, rnd(g, 0, std::min(ra, rb)), 5, 2), g, G);
	}
	return R.finish();
}
