// element-wise arithmetic of block tensors against the same operation on the dense contents
#include "bt.h"

// same structure, another subset of blocks
static Ref mate(const Ref &r, Rng &g)
{
	Ref o = r;
	o.blocks.clear();
	int pc[] = {0, 40, 70, 100};
	rnd_blocks(o, g, pc[rnd(g, 0, 3)]);
	return o;
}
static void sums(const Ref &r, Rng &g, const Group &G)
{
	auto &R = Rep::get();
	Ref s = mate(r, g);
	int al = rnd(g, -3, 3);
	R.begin("sums of " + r.describe() + " and " + s.describe() + " alpha " + std::to_string(al));
	guarded([&] {
		auto A = r.dense(), B = s.dense();
		btensor a = r.make(&g), b = s.make(&g);
		auto same = [&](const btensor &x, const torch::Tensor &want, const char *what) {
			std::string bad = invalid(x);
			R.check(bad.empty(), (std::string(what) + ": result not valid: " + bad).c_str());
			R.check(same_struct(read(x), r), (std::string(what) + ": structure of the result").c_str());
			R.check(same_tensor(x.to_dense(), want), (std::string(what) + ": dense content").c_str());
			R.check(same_all(read(a), r) && same_all(read(b), s), (std::string(what) + ": an operand changed").c_str());
		};
		same(a.add(b, al), A + al * B, "add");
		same(a + b, A + B, "operator+");
		same(a.sub(b, al), A - al * B, "sub");
		same(a - b, A - B, "operator-");
		same(a.add(a), A + A, "sum with itself");
		same(a.sub(a), A - A, "difference with itself");
		same(a.mul(al), A * al, "mul");
		same(a * btensor::Scalar(al), A * al, "operator* scalar");
		same(btensor::Scalar(al) * a, A * al, "scalar operator*");
		same(a.div(4), A / 4, "div");
		same(a / btensor::Scalar(2), A / 2, "operator/");
		same(-a, -A, "negation");
		same(a.abs(), A.abs(), "abs");
		same(a.add(btensor(b), al), A + al * B, "add a temporary");
		same(a.sub(btensor(b), al), A - al * B, "subtract a temporary");
		same(a.add(s.make(&g), al), A + al * B, "add the only owner");
		same(a.sub(s.make(&g), al), A - al * B, "subtract the only owner");
		auto inplace = [&](std::function<btensor &(btensor &)> f, const torch::Tensor &want, const char *what) {
			btensor x = r.make(&g);
			btensor &ret = f(x);
			R.check(&ret == &x, (std::string(what) + ": reference returned").c_str());
			std::string bad = invalid(x);
			R.check(bad.empty(), (std::string(what) + ": not valid: " + bad).c_str());
			R.check(same_struct(read(x), r) && same_tensor(x.to_dense(), want), (std::string(what) + ": content").c_str());
			R.check(same_all(read(b), s), (std::string(what) + ": the other operand changed").c_str());
		};
		inplace([&](btensor &x) -> btensor & { return x.add_(b, al); }, A + al * B, "add_");
		inplace([&](btensor &x) -> btensor & { return x.sub_(b, al); }, A - al * B, "sub_");
		inplace([&](btensor &x) -> btensor & { return x += b; }, A + B, "+=");
		inplace([&](btensor &x) -> btensor & { return x -= b; }, A - B, "-=");
		inplace([&](btensor &x) -> btensor & { return x.add_(btensor(b), al); }, A + al * B, "add_ temporary");
		inplace([&](btensor &x) -> btensor & { return x.sub_(s.make(&g), al); }, A - al * B, "sub_ temporary");
		inplace([&](btensor &x) -> btensor & { return x += btensor(b); }, A + B, "+= temporary");
		inplace([&](btensor &x) -> btensor & { return x -= btensor(b); }, A - B, "-= temporary");
		btensor t = b.permute([&] {
			std::vector<int64_t> p(b.dim());
			for (size_t i = 0; i < p.size(); ++i)
				p[i] = i;
			return p;
		}()); // blocks that share the storage of b
		inplace([&](btensor &x) -> btensor & { return x.add_(std::move(t), al); }, A + al * B, "add_ a permutation");
		inplace([&](btensor &x) -> btensor & { return x.add_(x); }, A + A, "add_ itself");
		inplace([&](btensor &x) -> btensor & { return x.mul_(al); }, A * al, "mul_");
		inplace([&](btensor &x) -> btensor & { return x *= al; }, A * al, "*=");
		inplace([&](btensor &x) -> btensor & { return x.div_(4); }, A / 4, "div_");
		inplace([&](btensor &x) -> btensor & { return x /= btensor::Scalar(2); }, A / 2, "/=");
		inplace([&](btensor &x) -> btensor & { return x.abs_(); }, A.abs(), "abs_");
		// a result does not share storage with the operands
		std::vector<btensor> res{a.add(b), a.sub(b), a.mul(1), -a, a.abs(), a.div(1), a.add(btensor(b)), a.sub(btensor(b))};
		for (auto &x : res)
			for (auto &kb : x)
				std::get<1>(kb).fill_(77);
		R.check(same_all(read(a), r) && same_all(read(b), s), "a result shares storage with an operand");
		btensor x = r.make(&g);
		x.add_(b);
		for (auto &kb : x)
			std::get<1>(kb).fill_(77);
		R.check(same_all(read(b), s), "the result of add_ shares storage with the operand");
	});
	// structures that differ
	Ref o = s;
	auto q = G.any(g);
	int what = rnd(g, 0, 4);
	if (o.rank() == 0 || what == 0)
	{
		if (q == G.zero)
			return;
		o.sel = o.sel * q;
	}
	else if (what == 1)
		++o.dims[rnd(g, 0, o.rank() - 1)].back().first;
	else if (what == 2)
	{
		if (q == G.zero)
			return;
		auto &x = o.dims[rnd(g, 0, o.rank() - 1)][0].second;
		x = x * q;
	}
	else if (what == 3)
	{ // the same list of sections divided otherwise in dimensions
		std::vector<std::pair<int64_t, any_quantity>> all;
		for (auto &d : o.dims)
			all.insert(all.end(), d.begin(), d.end());
		int nd = rnd(g, 1, all.size());
		std::vector<std::vector<std::pair<int64_t, any_quantity>>> dims;
		size_t at = 0;
		for (int d = 0; d < nd; ++d)
		{
			size_t n = d + 1 == nd ? all.size() - at : rnd(g, 1, all.size() - at - (nd - d - 1));
			dims.emplace_back(all.begin() + at, all.begin() + at + n);
			at += n;
		}
		o.dims = dims;
	}
	else
	{
		o.dims.push_back({{1, G.zero}});
	}
	if (same_struct(o, r))
		return;
	o.blocks.clear();
	rnd_blocks(o, g, 50);
	R.begin("sum of different structures " + r.describe() + " and " + o.describe());
	guarded([&] {
		btensor a = r.make(&g), b = o.make(&g);
		R.check(throws([&] { a.add(b); }) && throws([&] { a.sub(b); }), "accepted");
		R.check(throws([&] { a.add_(b); }) && throws([&] { a -= b; }), "accepted in place");
		R.check(throws([&] { a.add(o.make(&g)); }) && throws([&] { a.add_(o.make(&g)); }), "temporary accepted");
		R.check(same_all(read(a), r) && same_all(read(b), o), "refused but an operand changed");
		R.check(!quantit::allclose(a, b), "tensors of different structure reported as close");
	});
}
// a partner for the product with r: trailing dimensions equal to those of r or of size one
static void products(const Ref &r, Rng &g, const Group &G)
{
	auto &R = Rep::get();
	Ref a = r, b;
	b.sel = G.zero;
	int rb = rnd(g, 0, a.rank() + 1);
	for (int k = 0; k < rb; ++k)
	{
		int d = int(a.rank()) - rb + k;
		if (d < 0 || rnd(g, 0, 3) == 0)
			b.dims.push_back(rnd(g, 0, 2) || d >= 0 ? std::vector<std::pair<int64_t, any_quantity>>{{1, G.any(g)}} : rnd_dim(g, G, 3, 3));
		else
		{
			b.dims.push_back(a.dims[d]);
			for (auto &s : b.dims.back())
				s.second = G.any(g);
			if (rnd(g, 0, 3) == 0)
				a.dims[d] = {{1, G.any(g)}};
		}
	}
	a.blocks.clear();
	for (Ref *x : {&a, &b})
	{
		auto gr = x->grid();
		x->sel = x->bcharge(gr[g() % gr.size()]);
		int pc[] = {0, 50, 100};
		rnd_blocks(*x, g, pc[rnd(g, 0, 2)]);
	}
	bool bad = false;
	if (rnd(g, 0, 4) == 0)
	{ // sections that do not match
		std::vector<size_t> c;
		for (size_t k = 0; k < std::min(a.rank(), b.rank()); ++k)
			if (a.total(a.rank() - 1 - k) != 1 && b.total(b.rank() - 1 - k) != 1)
				c.push_back(k);
		if (c.size())
		{
			auto &d = b.dims[b.rank() - 1 - c[rnd(g, 0, c.size() - 1)]];
			if (rnd(g, 0, 1))
			{
				if (d.size() > 1 && d[0].first != d[1].first)
					std::swap(d[0].first, d[1].first);
				else
					++d[rnd(g, 0, d.size() - 1)].first;
			}
			else
				d.push_back({1, G.any(g)});
			b.blocks.clear();
			rnd_blocks(b, g, 70);
			bad = true;
		}
	}
	R.begin(std::string(bad ? "incompatible " : "") + "product of " + a.describe() + " and " + b.describe());
	guarded([&] {
		btensor x = a.make(&g), y = b.make(&g);
		if (bad)
		{
			R.check(throws([&] { x.mul(y); }) && throws([&] { y.mul(x); }), "accepted");
			R.check(throws([&] { x.mul_(y); }) && throws([&] { y.mul_(x); }), "accepted in place");
			R.check(same_all(read(x), a) && same_all(read(y), b), "refused but an operand changed");
			return;
		}
		auto want = a.dense() * b.dense();
		Ref shape;
		shape.sel = a.sel * b.sel;
		for (int k = int(std::max(a.rank(), b.rank())) - 1; k >= 0; --k)
		{
			bool ha = k < int(a.rank()), hb = k < int(b.rank());
			if (!ha || !hb)
			{
				shape.dims.push_back(ha ? a.dims[a.rank() - 1 - k] : b.dims[b.rank() - 1 - k]);
				continue;
			}
			auto &da = a.dims[a.rank() - 1 - k], &db = b.dims[b.rank() - 1 - k];
			bool sa = da.size() == 1 && da[0].first == 1, sb = db.size() == 1 && db[0].first == 1;
			shape.dims.emplace_back();
			for (size_t i = 0; i < std::max(da.size(), db.size()); ++i)
				shape.dims.back().emplace_back(sa ? db[i].first : da[i].first, da[sa ? 0 : i].second * db[sb ? 0 : i].second);
		}
		auto same = [&](const btensor &p, const char *what) {
			std::string inv = invalid(p);
			R.check(inv.empty(), (std::string(what) + " not valid: " + inv).c_str());
			R.check(same_struct(read(p), shape), (std::string(what) + ": sections, charges or selection rule").c_str());
			R.check(same_tensor(p.to_dense(), want), (std::string(what) + ": dense content").c_str());
		};
		same(x.mul(y), "mul");
		same(y.mul(x), "mul exchanged");
		same(x * y, "operator*");
		R.check(same_all(read(x), a) && same_all(read(y), b), "an operand changed");
		btensor u = a.make(&g);
		if (a.rank() < b.rank())
		{
			R.check(throws([&] { u.mul_(y); }), "in place product with an operand of larger rank accepted");
			R.check(same_all(read(u), a), "a refused product changed the tensor");
		}
		else
		{
			R.check(&u.mul_(y) == &u, "reference returned");
			same(u, "mul_");
		}
		R.check(same_all(read(y), b), "the other operand changed");
		btensor v = b.make(&g);
		if (b.rank() < a.rank())
			R.check(throws([&] { v *= x; }), "in place product with an operand of larger rank accepted");
		else
		{
			v *= x;
			same(v, "*= exchanged");
		}
		R.check(same_all(read(x), a), "the other operand changed");
		btensor w = a.make(&g);
		w.mul_(w);
		R.check(same_tensor(w.to_dense(), a.dense() * a.dense()) && invalid(w).empty(), "product with itself in place");
		R.check(same_tensor(x.mul(x).to_dense(), a.dense() * a.dense()), "product with itself");
	});
}

int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	for (int rank = 0; rank <= 4; ++rank)
		for (int i = 0; i < (R.thorough() ? 2000 : 120); ++i)
		{
			const Group &G = groups()[g() % groups().size()];
			sums(rnd_ref(g, G, rank, rank > 3 ? 3 : 4, rank > 3 ? 2 : 4), g, G);
			for (int k = 0; k < 2; ++k)
				products(rnd_ref(g, G, rank > 3 ? 3 : rank, 3, 3), g, G);
		}
	return R.finish();
}
