// charge transformations of block tensors against the reference model
#include "bt.h"

static Ref inverted(Ref r)
{
	for (auto &d : r.dims)
		for (auto &s : d)
			s.second = s.second.inverse();
	r.sel = r.sel.inverse();
	return r;
}
static Ref shifted(Ref r, const any_quantity &q, size_t dim)
{
	for (auto &s : r.dims[dim])
		s.second = s.second * q;
	r.sel = r.sel * q;
	return r;
}
static void one(const Ref &r, Rng &g, const Group &G)
{
	auto &R = Rep::get();
	R.begin("inversion " + r.describe());
	guarded([&] {
		btensor t = r.make(&g);
		Ref want = inverted(r);
		btensor i = t.inverse_cvals();
		R.check(invalid(i).empty(), "the inverted tensor is not valid");
		R.check(same_all(read(i), want), "charges, selection rule or blocks of the inverted tensor");
		R.check(same_all(read(t), r), "the operand changed");
		btensor c = t.conj();
		R.check(same_all(read(c), want) && invalid(c).empty(), "conjugate");
		btensor co = t.conj_only();
		R.check(same_all(read(co), r) && invalid(co).empty(), "conj_only");
		R.check(same_all(read(t), r), "the operand changed");
		R.check(same_all(read(i.inverse_cvals()), r) && same_all(read(c.conj()), r), "inverting twice");
		btensor u = r.make(&g);
		R.check(&u.inverse_cvals_() == &u && same_all(read(u), want), "in-place inversion");
		u.inverse_cvals_();
		R.check(same_all(read(u), r), "inverting twice in place");
		R.check(same_all(read(quantit::inverse_cvals(t)), want) && same_all(read(quantit::inverse_cvals(btensor(t))), want), "free functions");
	});
	for (int64_t d = 0; d < int64_t(r.rank()); ++d)
	{
		any_quantity q = G.any(g);
		R.begin("shift " + r.describe() + " dim " + std::to_string(d) + " by " + fmt::format("{}", q));
		guarded([&] {
			btensor t = r.make(&g);
			Ref want = shifted(r, q, d);
			btensor s = t.cval_shift(q, d);
			R.check(same_all(read(s), want), "charges, selection rule or blocks of the shifted tensor");
			R.check(invalid(s).empty(), ("the shifted tensor is not valid: " + invalid(s)).c_str());
			R.check(same_all(read(t), r), "the operand changed");
			any_quantity qi = q.inverse();
			R.check(same_all(read(s.cval_shift(qi, d)), r), "shifting back");
			btensor u = r.make(&g);
			R.check(&u.cval_shift_(q, d) == &u && same_all(read(u), want), "in-place shift");
			// the shift given by reference to a charge of the tensor itself
			btensor w = r.make(&g);
			size_t sec = rnd(g, 0, r.dims[d].size() - 1);
			w.cval_shift_(w.section_conserved_qtt(d, sec), d);
			R.check(same_all(read(w), shifted(r, r.dims[d][sec].second, d)) && invalid(w).empty(), "shift by a charge of the tensor itself");
		});
	}
	R.begin("requests refused " + r.describe());
	guarded([&] {
		btensor t = r.make(&g);
		any_quantity q = G.any(g);
		int64_t d = rnd(g, 0, 1) ? int64_t(r.rank()) + rnd(g, 0, 3) : -1 - rnd(g, 0, 2);
		R.check(throws([&] { t.cval_shift_(q, d); }) && throws([&] { t.cval_shift(q, d); }), "shift of a dimension the tensor does not have accepted");
		R.check(same_all(read(t), r), "refused but the tensor changed");
		any_quantity sel = G.any(g);
		if (r.blocks.size())
		{
			bool refused = throws([&] { t.set_selection_rule_(sel); });
			R.check(refused ? same_all(read(t), r) : invalid(t).empty(), "selection rule set on a tensor with blocks");
			R.check(throws([&] { t.neutral_shape_(); }) && throws([&] { t.shift_selection_rule_(q); }) && throws([&] { t.non_conserving_cval_shift_(q, 0); }), "accepted on a tensor with blocks");
			R.check(throws([&] { t.neutral_shape(); }), "neutral shape of a tensor with blocks");
		}
		else
		{
			Ref want = r;
			want.sel = sel;
			R.check(&t.set_selection_rule_(sel) == &t && same_all(read(t), want), "selection rule set");
			want.sel = want.sel * q;
			t.shift_selection_rule_(q);
			R.check(same_all(read(t), want), "selection rule shifted");
			if (r.rank())
			{
				size_t k = rnd(g, 0, r.rank() - 1);
				Ref w2 = shifted(want, q, k);
				w2.sel = want.sel;
				t.non_conserving_cval_shift_(q, k);
				R.check(same_all(read(t), w2), "charges shifted alone");
				want = w2;
			}
			Ref neutral = want;
			for (auto &x : neutral.dims)
				for (auto &s : x)
					s.second = s.second.neutral();
			neutral.sel = neutral.sel.neutral();
			btensor n = t.neutral_shape();
			R.check(same_all(read(n), neutral) && same_all(read(t), want), "neutral shape");
			t.neutral_shape_();
			R.check(same_all(read(t), neutral), "neutral shape in place");
		}
		R.check(invalid(t).empty(), "not valid");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 5; ++rank)
		for (int i = 0; i < (R.thorough() ? 2500 : 150); ++i)
		{
			const Group &G = groups()[g() % groups().size()];
			Ref r = rnd_ref(g, G, rank, rank > 3 ? 3 : 4, rank > 3 ? 2 : 4);
			if (rnd(g, 0, 3) == 0)
				r.blocks.clear();
			one(r, g, G);
		}
	return R.finish();
}
