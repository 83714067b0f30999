// every way to obtain a block tensor gives a valid one; invalid parts and forbidden blocks are refused
#include "bt.h"

struct Parts
{
	size_t rank;
	idx_t sbd, ss;
	std::vector<any_quantity> cv;
	any_quantity sel;
	std::map<idx_t, torch::Tensor> blocks;
	std::string describe() const
	{
		std::string s = "rank " + std::to_string(rank) + " sections " + str(sbd) + " sizes " + str(ss) + " charges";
		for (auto &q : cv)
			s += fmt::format(" {}", q);
		s += fmt::format(" sel {} blocks", sel);
		for (auto &b : blocks)
			s += " " + str(b.first) + ":" + str(b.second.sizes().vec());
		return s;
	}
	bool valid() const
	{
		int64_t tot = 0;
		for (auto x : sbd)
			tot += x;
		if (rank != sbd.size() || tot != int64_t(ss.size()) || tot != int64_t(cv.size()))
			return false;
		for (auto &kb : blocks)
		{
			auto &k = kb.first;
			if (k.size() != rank || size_t(kb.second.dim()) != rank)
				return false;
			any_quantity q = sel.neutral();
			int64_t at = 0;
			for (size_t d = 0; d < rank; ++d)
			{
				if (k[d] < 0 || k[d] >= sbd[d] || kb.second.size(d) != ss[at + k[d]])
					return false;
				q += cv[at + k[d]];
				at += sbd[d];
			}
			if (q != sel)
				return false;
		}
		return true;
	}
	any_quantity_vector charges() const
	{
		any_quantity_vector v(cv.size(), any_quantity_cref(sel.neutral()));
		for (size_t i = 0; i < cv.size(); ++i)
			v[i] = cv[i];
		return v;
	}
	btensor make() const
	{
		btensor::block_list_t l;
		for (auto &b : blocks)
			l[b.first] = b.second;
		return btensor(rank, l, sbd, ss, charges(), sel, torch::TensorOptions().dtype(torch::kDouble));
	}
	btensor make_empty() const { return btensor(sbd, charges(), ss, sel, torch::TensorOptions().dtype(torch::kDouble)); }
};
static Parts parts(const Ref &r)
{
	Parts p{r.rank(), r.nsec(), {}, {}, r.sel, r.blocks};
	for (auto &d : r.dims)
		for (auto &s : d)
		{
			p.ss.push_back(s.first);
			p.cv.push_back(s.second);
		}
	return p;
}
static void corrupt(Parts &p, Rng &g, const Group &G)
{
	auto rekey = [&](std::function<void(idx_t &)> f) {
		if (p.blocks.empty())
			return;
		auto it = std::next(p.blocks.begin(), g() % p.blocks.size());
		idx_t k = it->first;
		auto t = it->second;
		f(k);
		p.blocks.erase(it);
		p.blocks[k] = t;
	};
	auto reblock = [&](std::function<torch::Tensor(torch::Tensor)> f) {
		if (p.blocks.empty())
			return;
		auto it = std::next(p.blocks.begin(), g() % p.blocks.size());
		it->second = f(it->second);
	};
	switch (rnd(g, 0, 15))
	{
	case 0: p.rank += rnd(g, 0, 1) && p.rank ? -1 : 1; break;
	case 1: p.ss.push_back(1); break;
	case 2: if (p.ss.size()) p.ss.erase(p.ss.begin() + rnd(g, 0, p.ss.size() - 1)); break;
	case 3: p.cv.push_back(G.any(g)); break;
	case 4: if (p.cv.size()) p.cv.erase(p.cv.begin() + rnd(g, 0, p.cv.size() - 1)); break;
	case 5: p.sbd.push_back(rnd(g, 0, 1)); break;
	case 6: if (p.sbd.size()) p.sbd.pop_back(); break;
	case 7: if (p.sbd.size()) ++p.sbd[rnd(g, 0, p.sbd.size() - 1)]; break;
	case 8: rekey([&](idx_t &k) { if (k.size()) k[rnd(g, 0, k.size() - 1)] += rnd(g, 0, 1) ? 1 : -1; }); break;
	case 9: rekey([&](idx_t &k) { if (k.size()) k[rnd(g, 0, k.size() - 1)] = rnd(g, -1, 4); }); break;
	case 10: rekey([&](idx_t &k) { if (k.size() && rnd(g, 0, 1)) k.pop_back(); else k.push_back(0); }); break;
	case 11: reblock([&](torch::Tensor t) { return rnd(g, 0, 1) ? t.unsqueeze(rnd(g, 0, t.dim())) : t.reshape({-1}); }); break;
	case 12: reblock([&](torch::Tensor t) { return t.dim() ? torch::cat({t, t}, rnd(g, 0, t.dim() - 1)) : t.unsqueeze(0); }); break;
	case 13: if (p.cv.size()) { auto &q = p.cv[rnd(g, 0, p.cv.size() - 1)]; q = q * G.any(g); } break;
	case 14: p.sel = p.sel * G.any(g); break;
	case 15: if (p.ss.size()) p.ss[rnd(g, 0, p.ss.size() - 1)] += rnd(g, 0, 1); break;
	}
}
static void construction(const Ref &r, Rng &g, const Group &G)
{
	auto &R = Rep::get();
	Parts p = parts(r);
	for (int n = rnd(g, 0, 2); n > 0; --n)
		corrupt(p, g, G);
	R.begin("construction from " + p.describe());
	guarded([&] {
		if (p.valid())
		{
			btensor t = p.make();
			R.check(invalid(t).empty() && btensor::check_tensor(t).empty(), "valid parts give an invalid tensor");
			Parts q = parts(read(t));
			R.check(q.sbd == p.sbd && q.ss == p.ss && q.sel == p.sel && q.cv == p.cv && same_blocks(read(t), [&] { Ref x = read(t); x.blocks = p.blocks; return x; }()), "the tensor constructed is not made of its parts");
		}
		else
			R.check(throws([&] { p.make(); }), "invalid parts accepted");
		Parts e = p;
		e.blocks.clear();
		e.rank = e.sbd.size();
		if (e.valid())
		{
			btensor t = p.make_empty();
			Parts q = parts(read(t));
			R.check(invalid(t).empty() && q.sbd == p.sbd && q.ss == p.ss && q.cv == p.cv && q.sel == p.sel, "structure of the tensor constructed without blocks");
		}
		else
			R.check(throws([&] { p.make_empty(); }), "invalid structure accepted");
	});
}
static void creation(const Ref &r, Rng &g)
{
	auto &R = Rep::get();
	R.begin("block creation in " + r.describe());
	guarded([&] {
		auto want = r.allowed_blocks();
		std::set<idx_t> ok(want.begin(), want.end());
		btensor t = r.make(&g);
		Ref now = deep(r);
		auto attempt = [&](const idx_t &k) {
			if (ok.count(k))
			{
				auto v = fill(r.bsizes(k), g);
				t.block(k) = v;
				now.blocks[k] = v;
				R.check(same_tensor(t.block(k), v) && same_tensor(t.block_at(k), v), "the block assigned is not found");
			}
			else
				R.check(throws([&] { t.block(k); }), ("block " + str(k) + " accepted").c_str());
			R.check(t.block_conservation_rule_test(r.rank() ? idx_t(r.rank(), 0) : idx_t{}) == ok.count(idx_t(r.rank(), 0)), "conservation rule test");
		};
		idx_t n = r.nsec();
		for (int i = 0; i < 12; ++i)
		{
			idx_t k;
			for (auto x : n)
				k.push_back(rnd(g, -1, x));
			attempt(k);
			if (want.size())
				attempt(want[g() % want.size()]);
		}
		idx_t w(r.rank() + 1, 0);
		attempt(w);
		if (r.rank())
			attempt(idx_t(r.rank() - 1, 0));
		R.check(same_all(read(t), now) && invalid(t).empty(), "content after creating blocks");
		for (auto &k : r.grid())
			R.check(t.block_conservation_rule_test(k) == bool(ok.count(k)), ("conservation rule test of " + str(k)).c_str());
		R.check(btensor::check_tensor(t).empty(), "validity test");
	});
	R.begin("creation functions for " + r.describe());
	guarded([&] {
		auto opt = torch::TensorOptions().dtype(torch::kDouble);
		auto all = r.allowed_blocks();
		btensor t = r.make(&g);
		auto full = [&](const btensor &x, const char *what, bool cst = false, double v = 0) {
			std::string bad = invalid(x);
			R.check(bad.empty(), (std::string(what) + " not valid: " + bad).c_str());
			Ref c = read(x);
			R.check(same_struct(c, r), (std::string(what) + ": structure").c_str());
			R.check(c.blocks.size() == all.size(), (std::string(what) + ": number of blocks").c_str());
			if (cst)
				for (auto &b : c.blocks)
					R.check(same_tensor(b.second, torch::full_like(b.second, v)), (std::string(what) + ": content").c_str());
		};
		auto s = r.veclist();
		full(zeros(s, r.sel, opt), "zeros", true, 0);
		full(zeros_like(t), "zeros_like", true, 0);
		full(ones(s, r.sel, opt), "ones", true, 1);
		full(ones_like(t), "ones_like", true, 1);
		full(quantit::full(s, r.sel, 3, opt), "full", true, 3);
		full(full_like(t, 3), "full_like", true, 3);
		full(quantit::empty(s, r.sel, opt), "empty");
		full(empty_like(t), "empty_like");
		full(quantit::rand(s, r.sel, opt), "rand");
		full(rand_like(t), "rand_like");
		full(randn(s, r.sel, opt), "randn");
		full(randn_like(t), "randn_like");
		full(randint(0, 5, s, r.sel, opt), "randint");
		full(randint_like(0, 5, t), "randint_like");
		for (auto &z : {sparse_zeros(s, r.sel, opt), sparse_zeros_like(t)})
			R.check(invalid(z).empty() && same_struct(read(z), r) && z.begin() == z.end(), "sparse_zeros");
		R.check(same_all(read(t), r), "the model of a creation function changed");
		if (r.rank() == 1)
		{
			auto d = s[0], e = d;
			for (auto &x : e)
				std::get<1>(x) = std::get<1>(x).inverse();
			btensor m({d, e}, r.sel.neutral(), opt);
			btensor I = eye_like(m);
			R.check(invalid(I).empty() && same_struct(read(I), read(m)) && same_tensor(I.to_dense(), torch::eye(r.total(0), torch::kDouble)), "eye_like");
		}
	});
}
struct Tracked
{
	btensor t;
	std::string how;
};
static void histories(Rng &g, const Group &G, int steps)
{
	auto &R = Rep::get();
	std::vector<Tracked> pool;
	auto fresh = [&] {
		Ref r = rnd_ref(g, G, rnd(g, 0, 3), 3, 2);
		return Tracked{r.make(&g), "{" + r.describe() + "}"};
	};
	for (int i = 0; i < 3; ++i)
		pool.push_back(fresh());
	for (int step = 0; step < steps; ++step)
	{
		Tracked &x = pool[g() % pool.size()], &y = pool[g() % pool.size()];
		int op = rnd(g, 0, 25);
		int rk = x.t.dim();
		idx_t perm;
		for (int i = 0; i < rk; ++i)
			perm.push_back(i);
		std::shuffle(perm.begin(), perm.end(), g);
		int64_t d = rk ? rnd(g, 0, rk - 1) : 0;
		any_quantity q = G.any(g);
		std::string how = x.how.size() > 900 ? "..." + x.how.substr(x.how.size() - 600) : x.how;
		Tracked out;
		bool made = false, refused = false;
		Ref bx = deep(read(x.t)), by = deep(read(y.t));
		std::string name = std::to_string(op);
		idx_t req;
		auto sz = x.t.sizes();
		for (int i = 0; i < rk; ++i)
			req.push_back(rnd(g, 0, 1) ? -1 : rnd(g, 0, sz[i] - 1));
		auto say = [&](std::string n) { R.begin(n + " after " + how + (&x == &y ? "" : " and " + y.how.substr(0, 300))); name = n; };
		auto set = [&](btensor b) { out.t = std::move(b); made = true; };
		try
		{
			switch (op)
			{
			case 0: say("permute" + str(perm)); set(x.t.permute(perm)); break;
			case 1: if (rk > 1) { say("transpose"); set(x.t.transpose(0, d)); } break;
			case 2: case 3:
			{
				idx_t gr;
				for (int i = 1; i < rk; ++i)
					if (rnd(g, 0, 1))
						gr.push_back(i);
				say("reshape" + str(gr));
				set(x.t.reshape(torch::IntArrayRef(gr)));
				break;
			}
			case 4: case 5:
			{
				idx_t c(perm.begin(), perm.begin() + rnd(g, 0, rk));
				say("contraction with the conjugate over " + str(c));
				if (rk + rk - 2 * c.size() <= 4)
					set(x.t.tensordot(x.t.conj(), c, c));
				break;
			}
			case 6: say("mul"); if (rk + y.t.dim() <= 8) set(x.t.mul(y.t)); break;
			case 7: say("add"); set(x.t.add(y.t)); break;
			case 8: say("add multiple"); set(x.t.add(x.t.mul(2))); break;
			case 9: say("inverse_cvals"); set(x.t.inverse_cvals()); break;
			case 10: if (rk) { say("cval_shift"); set(x.t.cval_shift(q, d)); } break;
			case 11: say("view" + str(req)); set(x.t.basic_create_view(req)); break;
			case 12: say("view of same rank" + str(req)); set(x.t.basic_create_view(req, true)); break;
			case 13: say("random tensor of the restricted shape" + str(req)); set(rand_like(x.t.shape_from(req))); break;
			case 14: say("tensor_product_shape"); if (rk + y.t.dim() <= 4) set(rand_like(x.t.tensor_product_shape(y.t))); break;
			case 15: say("index_put" + str(req)); { btensor z = rand_like(x.t); z.basic_index_put_(req, x.t.basic_create_view(req)); set(z); } break;
			case 16: say("random tensor of the neutral shape"); set(rand_like(x.t.neutral_shape())); break;
			case 17: say("sum"); set(x.t.sum()); break;
			case 18: say("squeeze"); set(x.t.squeeze()); break;
			case 19: say("sqrt of abs"); set(x.t.abs().sqrt()); break;
			case 20: say("division by a scalar"); set(x.t.div(2.0)); break;
			case 21: say("split of the dense content"); set(from_basic_tensor_like(x.t, x.t.to_dense())); break;
			case 22: say("division"); if (rk + y.t.dim() <= 8) set(x.t.div(y.t)); break;
			case 23:
			{
				say("in place chain");
				btensor z = x.t.mul(1);
				z.permute_(perm);
				z.add_(z);
				z.inverse_cvals_();
				z.mul_(0.5);
				set(z);
				break;
			}
			case 24: say("comparison"); set(x.t.eq(y.t)); break;
			case 25: say("shape composition"); if (rk + y.t.dim() <= 4) set(zeros_like(quantit::shape_from({x.t, y.t}))); break;
			}
		}
		catch (std::exception &)
		{
			refused = true;
		}
		if (made)
		{
			std::string bad = invalid(out.t);
			R.check(bad.empty(), ("result not valid: " + bad).c_str());
			R.check(btensor::check_tensor(out.t).empty() == bad.empty(), "the validity test disagrees");
		}
		static const std::set<int> never{0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 15, 17, 18, 19, 20, 21, 23};
		R.check(!refused || !never.count(op), ("refused: " + name).c_str());
		R.check(same_all(read(x.t), bx) && same_all(read(y.t), by) && invalid(x.t).empty(), "an operand changed");
		if (made && op != 22 && op != 24 && out.t.dim() <= 4 && btensor::btensor_compute_max_size(out.t) < 200 && invalid(out.t).empty())
		{
			out.how = name + " of (" + how + ")";
			size_t at = g() % pool.size();
			pool[at] = std::move(out);
		}
		if (rnd(g, 0, 9) == 0)
			pool[g() % pool.size()] = fresh();
	}
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 4; ++rank)
		for (int i = 0; i < (R.thorough() ? 3000 : 150); ++i)
		{
			const Group &G = groups()[g() % groups().size()];
			Ref r = rnd_ref(g, G, rank, rank > 3 ? 2 : 3, rank > 3 ? 2 : 3);
			creation(r, g);
			for (int k = 0; k < 4; ++k)
				construction(r, g, G);
		}
	for (int i = 0; i < (R.thorough() ? 2000 : 150); ++i)
		histories(g, groups()[g() % groups().size()], 20);
	return R.finish();
}
