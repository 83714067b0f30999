#include "common.h"
#include "dimension_manip.h"
#include "tensorgdot.h"
#include <torch/torch.h>
using namespace quantit;
using vec = std::vector<int64_t>;
using Rng = std::mt19937_64;
static int rnd(Rng &g, int lo, int hi) { return lo + int(g() % uint64_t(hi - lo + 1)); }

static void lists(Rng &g)
{
	auto &R = Rep::get();
	auto rv = [&](int hi) {
		vec v(rnd(g, 0, hi));
		for (auto &x : v)
			x = rnd(g, 0, 6) ? rnd(g, 1, 9) : rnd(g, 0, 100000);
		return v;
	};
	vec a = rv(6), b = rv(6), c = rv(6);
	R.begin("lists " + str(a) + " " + str(b) + " " + str(c));
	guarded([&] {
		vec a0 = a, b0 = b, c0 = c;
		vec ab = a, abc;
		ab.insert(ab.end(), b.begin(), b.end());
		abc = ab;
		abc.insert(abc.end(), c.begin(), c.end());
		R.check(concat(a, b) == ab, "concat of two lists");
		R.check(concat(a, b, c) == abc, "concat of three lists");
		R.check(concat({torch::IntArrayRef(a)}) == a, "concat of one list");
		vec rev(a.rbegin(), a.rend());
		R.check(reverse(a) == rev, "reverse");
		int64_t p = 1;
		for (auto x : a)
			p *= x;
		R.check(prod(a) == p, "prod");
		for (size_t s = 0; s <= a.size(); ++s)
			for (size_t n = 0; s + n <= a.size(); ++n)
			{
				int64_t q = 1;
				for (size_t i = s; i < s + n; ++i)
					q *= a[i];
				R.check(prod(a, s, n) == q, "prod of a sub-range");
				auto sl = slice(a, s, n);
				R.check(sl.vec() == vec(a.begin() + s, a.begin() + s + n) && (n == 0 || sl.data() == a.data() + s), "slice");
			}
		R.check(a == a0 && b == b0 && c == c0, "an argument changed");
	});
}

// odometer sums, independent of torch's own contraction
static torch::Tensor reference(const torch::Tensor &add, const torch::Tensor &a, const torch::Tensor &b, vec d1, vec d2, double beta, double alpha)
{
	auto A = a, B = b;
	for (auto &d : d1)
		if (d < 0)
			d += a.dim();
	for (auto &d : d2)
		if (d < 0)
			d += b.dim();
	for (size_t i = 0; i < d1.size(); ++i)
	{
		int64_t n = A.size(d1[i]) == 1 ? B.size(d2[i]) : A.size(d1[i]);
		vec s = A.sizes().vec();
		s[d1[i]] = n;
		auto A2 = A.size(d1[i]) == 1 ? A.expand(s) : A;
		vec t = B.sizes().vec();
		t[d2[i]] = n;
		B = B.size(d2[i]) == 1 ? B.expand(t) : B;
		A = A2;
	}
	vec f1, f2, rs;
	for (int64_t i = 0; i < a.dim(); ++i)
		if (std::find(d1.begin(), d1.end(), i) == d1.end())
		{
			f1.push_back(i);
			rs.push_back(A.size(i));
		}
	for (int64_t i = 0; i < b.dim(); ++i)
		if (std::find(d2.begin(), d2.end(), i) == d2.end())
		{
			f2.push_back(i);
			rs.push_back(B.size(i));
		}
	vec cs;
	for (auto d : d1)
		cs.push_back(A.size(d));
	auto out = torch::zeros(rs, torch::kDouble);
	auto next = [](vec &v, const vec &s) {
		for (int i = int(s.size()) - 1; i >= 0; --i)
		{
			if (++v[i] < s[i])
				return true;
			v[i] = 0;
		}
		return false;
	};
	auto num = [](const vec &s) {
		int64_t n = 1;
		for (auto x : s)
			n *= x;
		return n;
	};
	if (num(rs) == 0)
		return out;
	vec r(rs.size(), 0);
	auto at = [](const torch::Tensor &t, const vec &ix) {
		int64_t o = 0;
		for (int64_t i = 0; i < t.dim(); ++i)
			o += ix[i] * t.stride(i);
		return t.data_ptr<double>()[o];
	};
	do
	{
		double sum = 0;
		if (num(cs))
		{
			vec c(cs.size(), 0);
			do
			{
				vec ia(a.dim()), ib(b.dim());
				for (size_t i = 0; i < f1.size(); ++i)
					ia[f1[i]] = r[i];
				for (size_t i = 0; i < f2.size(); ++i)
					ib[f2[i]] = r[f1.size() + i];
				for (size_t i = 0; i < d1.size(); ++i)
					ia[d1[i]] = ib[d2[i]] = c[i];
				sum += at(A, ia) * at(B, ib);
			} while (next(c, cs));
		}
		int64_t o = 0;
		for (size_t i = 0; i < rs.size(); ++i)
			o += r[i] * out.stride(i);
		out.data_ptr<double>()[o] = beta * at(add, r) + alpha * sum;
	} while (next(r, rs));
	return out;
}
static torch::Tensor ints(const vec &s, Rng &g)
{
	auto t = torch::empty(s, torch::kDouble);
	auto p = t.data_ptr<double>();
	for (int64_t i = 0; i < t.numel(); ++i)
		p[i] = rnd(g, -7, 7);
	return t;
}
// same content, another memory layout
static torch::Tensor layout(const torch::Tensor &t, Rng &g)
{
	int k = rnd(g, 0, 2);
	if (t.dim() == 0 || k == 0)
		return t.clone();
	vec p(t.dim()), inv(t.dim());
	for (size_t i = 0; i < p.size(); ++i)
		p[i] = i;
	std::shuffle(p.begin(), p.end(), g);
	for (size_t i = 0; i < p.size(); ++i)
		inv[p[i]] = i;
	auto o = t.permute(p).clone(at::MemoryFormat::Contiguous).permute(inv);
	if (k == 2)
	{
		int64_t d = g() % t.dim();
		vec s = o.sizes().vec();
		s[d] = 2 * s[d] + 1;
		auto big = torch::zeros(s, torch::kDouble);
		auto v = big.narrow(d, 1, t.size(d));
		v.copy_(o);
		return v;
	}
	return o;
}
static bool same(const torch::Tensor &a, const torch::Tensor &b) { return a.sizes() == b.sizes() && (a.numel() == 0 || torch::equal(a, b)); }

static void contraction(Rng &g)
{
	auto &R = Rep::get();
	int r1 = rnd(g, 0, 4), r2 = rnd(g, 0, 4), nc = rnd(g, 0, std::min(r1, r2));
	vec s1(r1), s2(r2), d1(r1), d2(r2);
	for (int i = 0; i < r1; ++i)
	{
		s1[i] = rnd(g, 0, 15) ? rnd(g, 1, 4) : 0;
		d1[i] = i;
	}
	for (int i = 0; i < r2; ++i)
	{
		s2[i] = rnd(g, 0, 15) ? rnd(g, 1, 4) : 0;
		d2[i] = i;
	}
	std::shuffle(d1.begin(), d1.end(), g);
	std::shuffle(d2.begin(), d2.end(), g);
	d1.resize(nc);
	d2.resize(nc);
	bool bc = false, bad = false;
	for (int i = 0; i < nc; ++i)
	{
		s2[d2[i]] = s1[d1[i]];
		int k = rnd(g, 0, 5);
		if (k == 0)
			s1[d1[i]] = 1;
		if (k == 1)
			s2[d2[i]] = 1;
		bc = bc || s1[d1[i]] != s2[d2[i]];
	}
	vec good2 = s2;
	if (nc && rnd(g, 0, 5) == 0)
	{
		int i = rnd(g, 0, nc - 1);
		s2[d2[i]] = s1[d1[i]] + 1;
		bad = s1[d1[i]] != 1 && s2[d2[i]] != 1;
		if (!bad)
			s2 = good2;
	}
	vec rs;
	for (int i = 0; i < r1; ++i)
		if (std::find(d1.begin(), d1.end(), i) == d1.end())
			rs.push_back(s1[i]);
	for (int i = 0; i < r2; ++i)
		if (std::find(d2.begin(), d2.end(), i) == d2.end())
			rs.push_back(s2[i]);
	vec n1 = d1, n2 = d2; // the lists as given, some counted from the end
	for (int i = 0; i < nc; ++i)
	{
		if (rnd(g, 0, 4) == 0)
			n1[i] -= r1;
		if (rnd(g, 0, 4) == 0)
			n2[i] -= r2;
	}
	double beta = rnd(g, -2, 2), alpha = rnd(g, -2, 2);
	auto A = layout(ints(s1, g), g), B = layout(ints(s2, g), g), add = layout(ints(rs, g), g);
	R.begin("contraction of " + str(s1) + " and " + str(s2) + " over " + str(n1) + " " + str(n2) + " into " + str(rs) + " strides " +
	        str(add.strides().vec()) + " beta " + std::to_string(beta) + " alpha " + std::to_string(alpha));
	auto A0 = A.clone(), B0 = B.clone(), add0 = add.clone();
	if (bad)
	{
		auto o = add.clone();
		R.check(throws([&] { tensorgdot(add, A, B, n1, n2, beta, alpha); }), "tensorgdot accepts mismatched dimensions");
		R.check(throws([&] { tensorgdot_(o, A, B, n1, n2, beta, alpha); }), "tensorgdot_ accepts mismatched dimensions");
		R.check(throws([&] { tensorgdot_out(o, add, A, B, n1, n2, beta, alpha); }), "tensorgdot_out accepts mismatched dimensions");
		R.check(same(o, add0) && same(A, A0) && same(B, B0), "a refused contraction modified an argument");
		return;
	}
	guarded([&] {
		auto want = reference(add, A, B, n1, n2, beta, alpha);
		auto got = tensorgdot(add, A, B, n1, n2, beta, alpha);
		R.check(same(got, want), "tensorgdot gives a wrong result");
		R.check(same(add, add0), "tensorgdot modified its input");
		auto o = layout(add, g);
		auto &ret = tensorgdot_(o, A, B, n1, n2, beta, alpha);
		R.check(&ret == &o && same(o, want), "tensorgdot_ gives another result");
		auto o2 = layout(ints(rs, g), g);
		auto &ret2 = tensorgdot_out(o2, add, A, B, n1, n2, beta, alpha);
		R.check(&ret2 == &o2 && same(o2, want), "tensorgdot_out gives another result");
		R.check(same(add, add0), "tensorgdot_out modified its input");
		auto o3 = layout(add, g);
		tensorgdot_out(o3, o3, A, B, n1, n2, beta, alpha);
		R.check(same(o3, want), "tensorgdot_out in place gives another result");
		R.check(same(tensorgdot(add, A, B, n1, n2), reference(add, A, B, n1, n2, 1, 1)), "default factors");
		R.check(same(A, A0) && same(B, B0), "an operand was modified");
		if (!bc)
		{
			// contracted dimensions last in the first operand, first in the second one
			vec p1, p2 = d2;
			for (int i = 0; i < r1; ++i)
				if (std::find(d1.begin(), d1.end(), i) == d1.end())
					p1.push_back(i);
			p1.insert(p1.end(), d1.begin(), d1.end());
			for (int i = 0; i < r2; ++i)
				if (std::find(d2.begin(), d2.end(), i) == d2.end())
					p2.push_back(i);
			auto Ap = A.permute(p1), Bp = B.permute(p2);
			auto o4 = layout(add, g);
			auto &ret4 = tensorgdot_(o4, Ap, Bp, nc, beta, alpha);
			R.check(&ret4 == &o4 && same(o4, want), "tensorgdot_ by number of dimensions gives another result");
			R.check(same(A, A0) && same(B, B0), "an operand was modified by tensorgdot_ by number of dimensions");
		}
		// inconsistent shapes
		auto refused = [&](const char *what, const torch::Tensor &ad, const torch::Tensor &x, const torch::Tensor &y, vec e1, vec e2) {
			auto o = ad.clone();
			R.check(throws([&] { tensorgdot(ad, x, y, e1, e2, beta, alpha); }), (std::string("tensorgdot accepts ") + what).c_str());
			R.check(throws([&] { tensorgdot_(o, x, y, e1, e2, beta, alpha); }), (std::string("tensorgdot_ accepts ") + what).c_str());
			R.check(throws([&] { tensorgdot_out(o, ad, x, y, e1, e2, beta, alpha); }), (std::string("tensorgdot_out accepts ") + what).c_str());
			R.check(same(o, ad), "a refused contraction modified the output");
		};
		if (add.numel() > 0)
		{
			vec w = rs;
			w.push_back(1);
			refused("an output of another rank", add.reshape(w), A, B, n1, n2);
			auto wrong = torch::zeros({add.numel()}, torch::kDouble);
			if (rs.size() != 1)
			{
				auto w0 = wrong.clone();
				R.check(throws([&] { tensorgdot_out(wrong, add, A, B, n1, n2, beta, alpha); }), "tensorgdot_out accepts an output of another shape");
				R.check(same(wrong, w0), "a refused contraction modified the output");
			}
			vec w2 = rs;
			if (!w2.empty())
			{
				w2.back() += 1;
				refused("an output of another size", torch::zeros(w2, torch::kDouble), A, B, n1, n2);
			}
		}
		if (nc)
		{
			vec e = n1;
			e.pop_back();
			refused("lists of different length", add, A, B, e, n2);
			e = n1;
			e[0] = r1;
			refused("a dimension beyond the end", add, A, B, e, n2);
		}
		for (int bad_n : {-1, std::min(r1, r2) + 1, std::min(r1, r2) + 2, r1 + r2 + 1})
		{
			for (auto &o : {add.clone(), torch::zeros({}, torch::kDouble)})
			{
				auto oo = o;
				R.check(throws([&] { tensorgdot_(oo, A, B, bad_n, beta, alpha); }), "tensorgdot_ accepts more dimensions than the operands have");
			}
		}
		R.check(same(A, A0) && same(B, B0) && same(add, add0), "an argument was modified");
	});
}
int main(int argc, char **argv)
{
	auto &R = Rep::get();
	R.init(argc, argv);
	Rng g(R.seed);
	torch::set_num_threads(1);
	for (int i = 0; i < (R.thorough() ? 20000 : 1500); ++i)
		lists(g);
	for (int i = 0; i < (R.thorough() ? 60000 : 4000); ++i)
		contraction(g);
	return R.finish();
}
