#include "bt.h"

static void one(const Ref &r, bool large = false)
{
	auto &R = Rep::get();
	R.begin("section and element queries " + r.describe());
	guarded([&] {
		const btensor t = large ? btensor(r.veclist(), r.sel) : r.make();
		int64_t rank = r.rank();
		R.check(t.dim() == rank, "wrong rank");
		auto full = t.sizes();
		if (full != r.sizes())
			R.fail("sizes() gives " + str(full));
		R.check(t.section_numbers() == r.nsec(), "section_numbers() wrong");
		for (int64_t d = 0; d < rank; ++d)
		{
			auto &D = r.dims[d];
			size_t n = D.size();
			R.check(t.section_number(d) == n, "section_number wrong");
			auto [s0, s1] = t.section_sizes(d);
			auto [q0, q1] = t.section_conserved_qtt_range(d);
			auto [c0, c1] = t.section_cqtts(d);
			auto [a0, a1, b0, b1] = t.section_sizes_cqtts(d);
			R.check(s1 - s0 == (long)n && q1 - q0 == (long)n && c1 - c0 == (long)n && a1 - a0 == (long)n && b1 - b0 == (long)n, "length of a section range");
			int64_t sum = 0, elem = 0;
			for (size_t s = 0; s < n; ++s, ++s0, ++q0, ++c0, ++a0, ++b0)
			{
				R.check((int64_t)t.section_size(d, s) == D[s].first, "section_size");
				R.check(t.section_conserved_qtt(d, s) == D[s].second, "section_conserved_qtt");
				auto [sz, cq] = t.section_size_cqtt(d, s);
				R.check((int64_t)sz == D[s].first && cq == D[s].second, "section_size_cqtt");
				R.check(*s0 == D[s].first && *a0 == D[s].first, "sizes of the range");
				R.check(any_quantity_cref(*q0) == D[s].second && any_quantity_cref(*c0) == D[s].second && any_quantity_cref(*b0) == D[s].second, "charges of the range");
				sum += D[s].first;
				for (int64_t e = 0; !large && e < D[s].first; ++e, ++elem)
					R.check(t.element_conserved_qtt(d, elem) == D[s].second, "element_conserved_qtt");
				if (large)
				{
					R.check(t.element_conserved_qtt(d, elem) == D[s].second, "element_conserved_qtt");
					elem += D[s].first;
					R.check(t.element_conserved_qtt(d, elem - 1) == D[s].second, "element_conserved_qtt");
				}
			}
			R.check(sum == full[d], "section sizes do not add up");
			for (size_t x : {n, n + 1, n + 1000})
			{
				R.check(throws([&] { t.section_size(d, x); }), "section_size accepts a section beyond the end");
				R.check(throws([&] { t.section_conserved_qtt(d, x); }), "section_conserved_qtt accepts a section beyond the end");
				R.check(throws([&] { t.section_size_cqtt(d, x); }), "section_size_cqtt accepts a section beyond the end");
			}
			R.check(throws([&] { t.element_conserved_qtt(d, sum); }), "element_conserved_qtt accepts an element beyond the end");
			R.check(throws([&] { t.element_conserved_qtt(d, sum + 7); }), "element_conserved_qtt accepts an element beyond the end");
		}
		for (size_t x : {rank, rank + 1, rank + 50})
		{
			R.check(throws([&] { t.section_size(x, 0); }), "section_size accepts a dimension beyond the end");
			R.check(throws([&] { t.section_conserved_qtt(x, 0); }), "section_conserved_qtt accepts a dimension beyond the end");
			R.check(throws([&] { t.section_size_cqtt(x, 0); }), "section_size_cqtt accepts a dimension beyond the end");
			R.check(throws([&] { t.section_conserved_qtt_range(x); }), "section_conserved_qtt_range accepts a dimension beyond the end");
			R.check(throws([&] { t.element_conserved_qtt(x, 0); }), "element_conserved_qtt accepts a dimension beyond the end");
		}
		// every element (or a corner set when there are many)
		if (rank > 0)
		{
			std::vector<idx_t> cand(rank);
			int64_t tot = 1;
			for (int64_t d = 0; d < rank; ++d)
			{
				if (!large)
					for (int64_t e = 0; e < full[d]; ++e)
						cand[d].push_back(e);
				else
				{
					int64_t o = 0;
					for (auto &s : r.dims[d])
					{
						cand[d].push_back(o);
						cand[d].push_back(o + s.first - 1);
						o += s.first;
					}
				}
				tot *= cand[d].size();
			}
			int64_t step = std::max<int64_t>(1, tot / 200);
			for (int64_t c = 0; c < tot; c += step)
			{
				idx_t e(rank);
				int64_t x = c;
				for (int64_t d = 0; d < rank; ++d)
				{
					e[d] = cand[d][x % cand[d].size()];
					x /= cand[d].size();
				}
				auto [bl, su] = t.element_index_decompose(e);
				bool ok = (int64_t)bl.size() == rank && (int64_t)su.size() == rank;
				for (int64_t d = 0; ok && d < rank; ++d)
				{
					ok = bl[d] >= 0 && bl[d] < (int64_t)r.dims[d].size() && su[d] >= 0 && su[d] < r.dims[d][bl[d]].first;
					if (!ok)
						break;
					int64_t o = su[d];
					for (int64_t s = 0; s < bl[d]; ++s)
						o += r.dims[d][s].first;
					ok = o == e[d];
				}
				if (!ok)
				{
					R.fail("element " + str(e) + " decomposed into block " + str(bl) + " offset " + str(su));
					return;
				}
			}
		}
		for (auto &b : r.grid())
		{
			idx_t s;
			for (auto x : t.block_sizes(b))
				s.push_back(x);
			R.check(s == r.bsizes(b), "block_sizes");
			any_quantity q = r.sel.neutral();
			size_t n = 0;
			for (const auto &x : t.block_quantities(b))
			{
				R.check(any_quantity_cref(x) == r.dims[n][b[n]].second, "block_quantities");
				++n;
			}
			R.check(n == r.rank(), "block_quantities length");
		}
		R.check(same_all(read(t), r), "the tensor changed");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 4; ++rank)
		for (int i = 0; i < (R.thorough() ? 1500 : 120); ++i)
			one(rnd_ref(g, groups()[g() % groups().size()], rank, rank > 2 ? 4 : 7, 5));
	for (int i = 0; i < 10; ++i)
	{
		// dimensions of more than 2^31 elements, no block stored
		Ref r;
		for (int d = 0; d < 3; ++d)
		{
			r.dims.emplace_back();
			for (int s = 0; s < 3; ++s)
				r.dims.back().emplace_back(int64_t(1500000000) + rnd(g, 0, 1000), groups()[1].any(g));
		}
		r.sel = groups()[1].zero;
		one(r, true);
	}
	// a dimension with sections of size zero
	for (int i = 0; i < (R.thorough() ? 400 : 60); ++i)
	{
		Ref r = rnd_struct(g, groups()[g() % groups().size()], rnd(g, 1, 3), 4, 3);
		for (auto &d : r.dims)
			for (auto &s : d)
				if (rnd(g, 0, 3) == 0)
					s.first = 0;
		one(r);
	}
	return R.finish();
}
