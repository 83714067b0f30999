// permutation of block tensors against the reference model
#include "bt.h"

static Ref permuted(const Ref &r, const idx_t &p)
{
	Ref o;
	o.sel = r.sel;
	for (auto x : p)
		o.dims.push_back(r.dims[x]);
	for (auto &kb : r.blocks)
	{
		idx_t k;
		for (auto x : p)
			k.push_back(kb.first[x]);
		o.blocks[k] = kb.second.permute(p).contiguous();
	}
	return o;
}
static void one(const Ref &r, Rng &g)
{
	auto &R = Rep::get();
	int64_t n = r.rank();
	idx_t p(n), neg(n), inv(n);
	std::iota(p.begin(), p.end(), 0);
	std::shuffle(p.begin(), p.end(), g);
	for (int64_t i = 0; i < n; ++i)
	{
		neg[i] = rnd(g, 0, 2) ? p[i] : p[i] - n;
		inv[p[i]] = i;
	}
	R.begin("permute " + r.describe() + " by " + str(neg));
	guarded([&] {
		Ref want = permuted(r, p);
		btensor t = r.make(&g);
		btensor q = t.permute(neg);
		std::string bad = invalid(q);
		R.check(bad.empty(), ("the permutation is not a valid tensor: " + bad).c_str());
		R.check(same_all(read(q), want), "structure, charges or blocks of the permutation");
		R.check(n == 0 || same_tensor(q.to_dense(), r.dense().permute(p)), "dense content of the permutation");
		R.check(same_all(read(t), r), "the operand changed");
		R.check(q.options().dtype() == t.options().dtype(), "type of the permutation");
		btensor back = q.permute(inv);
		R.check(same_all(read(back), r), "permuting by the inverse does not restore the tensor");
		btensor u = r.make(&g);
		btensor &ret = u.permute_(neg);
		R.check(&ret == &u && same_all(read(u), want) && invalid(u).empty(), "in-place permutation");
		R.check(same_all(read(q), want), "the permutation changed by a later operation");
	});
	if (n)
	{
		int64_t a = rnd(g, 0, n - 1), b = rnd(g, 0, n - 1), ga = rnd(g, 0, 1) ? a : a - n, gb = rnd(g, 0, 1) ? b : b - n;
		R.begin("transpose " + r.describe() + " dims " + std::to_string(ga) + "," + std::to_string(gb));
		guarded([&] {
			idx_t s(n);
			std::iota(s.begin(), s.end(), 0);
			std::swap(s[a], s[b]);
			Ref want = permuted(r, s);
			btensor t = r.make(&g);
			btensor q = t.transpose(ga, gb);
			R.check(same_all(read(q), want) && invalid(q).empty(), "transposition");
			R.check(same_tensor(q.to_dense(), r.dense().transpose(a, b)), "dense content of the transposition");
			R.check(same_all(read(t), r), "the operand changed");
			t.transpose_(ga, gb);
			R.check(same_all(read(t), want) && invalid(t).empty(), "in-place transposition");
			t.transpose_(gb, ga);
			R.check(same_all(read(t), r), "transposing twice");
		});
	}
	// malformed requests
	idx_t m = neg;
	switch (n ? rnd(g, 0, 3) : 0)
	{
	case 0: m.push_back(rnd(g, 0, n)); break;
	case 1: m.pop_back(); break;
	case 2: m[rnd(g, 0, n - 1)] = rnd(g, 0, 1) ? n + rnd(g, 0, 2) : -n - 1 - rnd(g, 0, 2); break;
	case 3:
		if (n < 2)
			return;
		{
			int i = rnd(g, 0, n - 1), j = (i + rnd(g, 1, n - 1)) % n;
			m[i] = rnd(g, 0, 1) ? p[j] : p[j] - n;
		}
	}
	R.begin("malformed permutation " + r.describe() + " by " + str(m));
	guarded([&] {
		btensor t = r.make(&g);
		R.check(throws([&] { t.permute(m); }), "accepted");
		R.check(throws([&] { t.permute_(m); }), "accepted in place");
		R.check(same_all(read(t), r), "refused but the tensor changed");
		int64_t a = rnd(g, 0, 1) ? n + rnd(g, 0, 2) : -n - 1 - rnd(g, 0, 2), b = n ? rnd(g, 0, n - 1) : 0;
		if (rnd(g, 0, 1))
			std::swap(a, b);
		R.check(throws([&] { t.transpose(a, b); }) && throws([&] { t.transpose_(a, b); }), "transposition outside the rank accepted");
		R.check(same_all(read(t), r), "refused but the tensor changed");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 5; ++rank)
		for (int i = 0; i < (R.thorough() ? 2500 : 200); ++i)
		{
			Ref r = rnd_ref(g, groups()[g() % groups().size()], rank, rank > 3 ? 3 : 4, rank > 3 ? 2 : 4);
			if (rnd(g, 0, 5) == 0)
				r.blocks.clear();
			one(r, g);
		}
	// sections of size zero
	for (int i = 0; i < (R.thorough() ? 500 : 60); ++i)
	{
		Ref r = rnd_struct(g, groups()[g() % groups().size()], rnd(g, 1, 4), 3, 3);
		for (auto &d : r.dims)
			for (auto &s : d)
				if (rnd(g, 0, 3) == 0)
					s.first = 0;
		rnd_blocks(r, g);
		one(r, g);
	}
	return R.finish();
}
