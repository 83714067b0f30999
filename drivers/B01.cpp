#include "bt.h"

static void one(const Ref &r)
{
	auto &R = Rep::get();
	R.begin("block_increment/max_size " + r.describe());
	guarded([&] {
		btensor t = r.make();
		auto ns = r.nsec();
		auto grid = r.grid();
		// expected enumeration: first dimension fastest
		std::vector<idx_t> exp = grid;
		std::sort(exp.begin(), exp.end(), [](const idx_t &a, const idx_t &b) { return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); });
		idx_t b(r.rank(), 0);
		for (size_t i = 0; i < exp.size(); ++i)
		{
			if (b != exp[i])
			{
				R.fail("enumeration step " + std::to_string(i) + " gives " + str(b) + " instead of " + str(exp[i]));
				return;
			}
			t.block_increment(b);
		}
		R.check(b == idx_t(r.rank(), 0), "enumeration does not return to the first block");
		size_t n = r.allowed_blocks().size();
		size_t got = btensor::btensor_compute_max_size(t);
		if (r.rank() == 0)
			n = 1;
		if (got != n)
			R.fail("maximum number of blocks " + std::to_string(got) + " instead of " + std::to_string(n));
		for (size_t cap : {size_t(0), size_t(1), size_t(3), exp.size() - 1, exp.size(), exp.size() + 5})
		{
			size_t m = 0;
			for (size_t i = 0; i < std::min(cap, exp.size()); ++i)
				m += r.allowed(exp[i]);
			if (r.rank() == 0)
				m = 1;
			size_t g = btensor::btensor_compute_max_size(t, cap);
			if (g != m)
				R.fail("with search length " + std::to_string(cap) + ": " + std::to_string(g) + " blocks instead of " + std::to_string(m));
		}
		R.check(same_all(read(t), r), "the tensor changed");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	// every grid up to rank 4 with 1..3 sections per dimension, each with a few charge assignments
	int maxrank = R.thorough() ? 5 : 4;
	for (int rank = 0; rank <= maxrank; ++rank)
	{
		int total = 1;
		for (int i = 0; i < rank; ++i)
			total *= 3;
		for (int code = 0; code < total; ++code)
			for (int rep = 0; rep < (R.thorough() ? 6 : 2); ++rep)
			{
				auto &G = groups()[g() % groups().size()];
				Ref r;
				int c = code;
				for (int d = 0; d < rank; ++d, c /= 3)
				{
					r.dims.emplace_back();
					for (int s = 0; s < 1 + c % 3; ++s)
						r.dims.back().emplace_back(rnd(g, 1, 2), G.any(g));
				}
				r.sel = G.zero;
				auto gr = r.grid();
				if (rep % 2)
					r.sel = r.bcharge(gr[g() % gr.size()]);
				one(r);
			}
	}
	for (int i = 0; i < (R.thorough() ? 3000 : 300); ++i)
		one(rnd_struct(g, groups()[g() % groups().size()], rnd(g, 1, 5), 5, 3));
	return R.finish();
}
