// L01 truncation of spectra, on the real code: dense helpers against a direct computation of the
// size to keep, dense and block truncations against the kept prefix of the factors
#include "bt.h"
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include <limits>

using quantit::truncate;
using T = torch::Tensor;
static const size_t NOMAX = std::numeric_limits<size_t>::max();

// the specified size: among min(min,n)..n the smallest for which the discarded weight is within the
// tolerance, or which the maximum allows no more than
static size_t keep(const std::vector<std::vector<double>> &batch, double tol, double pw, size_t mn, size_t mx)
{
	size_t n = batch[0].size();
	size_t lo = std::min(mn, n);
	auto within = [&](size_t s)
	{
		for (auto &v : batch)
		{
			long double w = 0;
			for (size_t i = s; i < n; ++i)
				w += std::pow(std::abs(v[i]), pw);
			if (w > std::pow(tol, pw))
				return false;
		}
		return true;
	};
	size_t s = n;
	while (s > lo && (within(s - 1) || s > mx))
		--s;
	return s;
}
static T vec(const std::vector<double> &v) { return torch::tensor(v, torch::kDouble); }

static double pick_val(Rng &g)
{
	// dyadic values: sums of the first two powers are exact
	static const double V[] = {0, 0, 0.25, 0.5, 1, 2, 3, 8};
	return V[rnd(g, 0, 7)];
}
static double pick_tol(Rng &g)
{
	static const double V[] = {0, 0, 0.25, 0.5, 1, 1.5, 3, 100};
	return V[rnd(g, 0, 7)];
}
static size_t pick_mx(Rng &g, size_t n) { return rnd(g, 0, 2) == 0 ? NOMAX : size_t(rnd(g, 0, int(n) + 1)); }

static void dense(Rng &g, int reps)
{
	Rep &r = Rep::get();
	for (int k = 0; k < reps; ++k)
	{
		int n = rnd(g, 1, 7), nb = rnd(g, 0, 3) == 0 ? rnd(g, 2, 3) : 1;
		std::vector<std::vector<double>> b(nb);
		for (auto &v : b)
		{
			for (int i = 0; i < n; ++i)
				v.push_back(pick_val(g));
			std::sort(v.begin(), v.end(), std::greater<double>());
		}
		double tol = pick_tol(g), pw = rnd(g, 1, 2);
		size_t mn = rnd(g, 0, n + 1), mx = pick_mx(g, n);
		std::string d;
		for (auto &v : b)
			d += str(v);
		std::ostringstream o;
		o << "spectrum " << d << " tol " << tol << " pow " << pw << " min " << mn << " max " << (mx == NOMAX ? std::string("none") : std::to_string(mx));
		std::vector<T> rows;
		for (auto &v : b)
			rows.push_back(vec(v));
		T D = nb == 1 ? rows[0] : torch::stack(rows);
		size_t want = keep(b, tol, pw, mn, mx);
		r.begin("compute_last_index " + o.str());
		guarded(
		    [&]
		    {
			    T before = D.clone();
			    auto li = quantit::compute_last_index(D, tol, pw, mn, mx);
			    r.check(li + 1 == int64_t(want), "number of kept values differs from the specified one");
			    r.check(torch::equal(before, D), "the spectrum was modified");
		    });
		r.begin("compute_first_index_ascending " + o.str());
		guarded(
		    [&]
		    {
			    T A = D.flip({-1}).contiguous(), before = A.clone();
			    auto fi = quantit::compute_first_index_ascending(A, tol, pw, mn, mx);
			    r.check(fi == n - int64_t(want), "first kept value of an ascending spectrum differs from the specified one");
			    r.check(torch::equal(before, A), "the spectrum was modified");
		    });
		int a = rnd(g, 1, 3);
		idx_t us{a, 2, n}, vs{3, n};
		if (nb > 1)
		{
			us.insert(us.begin(), nb);
			vs.insert(vs.begin(), nb);
		}
		T U = fill(us, g), V = fill(vs, g), U0 = U.clone(), V0 = V.clone(), D0 = D.clone();
		auto cut = [&](const T &t) { return t.narrow(-1, 0, want); };
		r.begin("truncate(u,d,v) " + o.str());
		guarded(
		    [&]
		    {
			    auto [u, dd, v] = truncate(U, D, V, tol, mn, mx, pw);
			    r.check(same_tensor(u, cut(U0)) && same_tensor(dd, cut(D0)) && same_tensor(v, cut(V0)), "factors are not the kept prefix in the documented order");
			    r.check(torch::equal(U, U0) && torch::equal(D, D0) && torch::equal(V, V0), "an input was modified");
		    });
		r.begin("truncate(tuple u,d,v) " + o.str());
		guarded(
		    [&]
		    {
			    auto tup = std::make_tuple(U, D, V);
			    auto [u, dd, v] = truncate(tup, tol, mn, mx, pw);
			    r.check(same_tensor(u, cut(U0)) && same_tensor(dd, cut(D0)) && same_tensor(v, cut(V0)), "factors are not the kept prefix in the documented order");
		    });
		r.begin("truncate(u,e) " + o.str());
		guarded(
		    [&]
		    {
			    auto [u, e] = truncate(U, D, tol, mn, mx, pw);
			    r.check(same_tensor(u, cut(U0)) && same_tensor(e, cut(D0)), "factors are not the kept prefix in the documented order");
		    });
		r.begin("truncate(tuple u,e) " + o.str());
		guarded(
		    [&]
		    {
			    auto tup = std::make_tuple(U, D);
			    auto [u, e] = truncate(tup, tol, mn, mx, pw);
			    r.check(same_tensor(u, cut(U0)) && same_tensor(e, cut(D0)), "factors are not the kept prefix in the documented order");
		    });
		r.count("dense spectra");
	}
	// truncated decompositions
	for (int k = 0; k < reps / 4; ++k)
	{
		int a = rnd(g, 1, 3), b = rnd(g, 1, 3), c = rnd(g, 1, 4);
		T A = torch::rand({a, b, c}, torch::kDouble) - 0.5;
		size_t split = rnd(g, 1, 2);
		double tol = pick_tol(g) / 4;
		size_t mn = rnd(g, 0, 4), mx = pick_mx(g, 4);
		std::ostringstream o;
		o << "sizes " << a << "," << b << "," << c << " split " << split << " tol " << tol << " min " << mn << " max " << int64_t(mx) << " #" << k;
		r.begin("truncated svd " + o.str());
		guarded(
		    [&]
		    {
			    auto [u, d, v] = quantit::svd(A, split);
			    auto [tu, td, tv] = quantit::svd(A, split, tol, mn, mx, 2);
			    std::vector<double> s(d.data_ptr<double>(), d.data_ptr<double>() + d.size(0));
			    size_t w = keep({s}, tol, 2, mn, mx);
			    r.check(close_tensor(td, d.narrow(-1, 0, w)), "kept singular values");
			    r.check(close_tensor(tu, u.narrow(-1, 0, w)) && close_tensor(tv, v.narrow(-1, 0, w)), "kept singular vectors");
			    auto [su, sd, sv] = quantit::svd(A, split, tol, 2);
			    size_t w1 = keep({s}, tol, 2, 1, NOMAX);
			    r.check(close_tensor(sd, d.narrow(-1, 0, w1)), "kept singular values, default bounds");
		    });
		T H = torch::rand({a, b, a, b}, torch::kDouble) - 0.5;
		H = H + H.permute({2, 3, 0, 1});
		r.begin("truncated eigh " + o.str());
		guarded(
		    [&]
		    {
			    auto [d, u] = quantit::eigh(H, 2);
			    auto [td, tu] = quantit::eigh(H, 2, tol, mn, mx, 1);
			    T dd = d.flip({-1}).contiguous();
			    std::vector<double> s(dd.data_ptr<double>(), dd.data_ptr<double>() + dd.size(0));
			    size_t w = keep({s}, tol, 1, mn, mx);
			    r.check(td.dim() == 1 && size_t(td.size(0)) == w, "number of kept eigenvalues");
			    if (td.dim() == 1 && size_t(td.size(0)) == w)
			    {
				    auto e = std::get<0>(td.sort());
				    r.check(close_tensor(e, d.narrow(-1, d.size(0) - int64_t(w), w)), "kept eigenvalues are not the largest ones");
				    if (w)
				    {
					    // each kept vector still goes with its value
					    T m = torch::mm(H.reshape({a * b, a * b}), tu.reshape({a * b, int64_t(w)}));
					    r.check(close_tensor(m, tu.reshape({a * b, int64_t(w)}) * td, 1e-7), "kept eigenvectors do not match the kept eigenvalues");
				    }
			    }
		    });
		r.count("dense decompositions");
	}
}

// a synthetic block decomposition: d over nb sections, factors with a few dimensions to the left
struct BlockCase
{
	Ref U, d, V;
};
static BlockCase block_case(Rng &g, const Group &G, bool tie)
{
	BlockCase c;
	int nb = rnd(g, 1, 4);
	std::vector<std::pair<int64_t, any_quantity>> bond, inv, neu;
	for (int i = 0; i < nb; ++i)
	{
		auto q = G.any(g);
		int64_t s = rnd(g, 1, 3);
		bond.emplace_back(s, q);
		inv.emplace_back(s, q.inverse());
		neu.emplace_back(s, G.zero);
	}
	c.d.sel = G.zero;
	c.d.dims = {neu};
	std::set<double> used;
	for (int i = 0; i < nb; ++i)
	{
		if (rnd(g, 0, 7) == 0)
			continue; // a section whose values were never stored
		std::vector<double> v;
		for (int64_t k = 0; k < bond[i].first; ++k)
		{
			double x;
			do
				x = tie ? pick_val(g) : rnd(g, 1, 40) / 8.0;
			while (!tie && used.count(x));
			used.insert(x);
			v.push_back(x);
		}
		std::sort(v.begin(), v.end(), std::greater<double>());
		c.d.blocks[{i}] = vec(v);
	}
	auto side = [&](const std::vector<std::pair<int64_t, any_quantity>> &bd)
	{
		Ref R;
		int k = rnd(g, 1, 2);
		for (int i = 0; i < k; ++i)
			R.dims.push_back(rnd_dim(g, G, 3, 2));
		R.dims.push_back(bd);
		R.sel = G.zero;
		auto gr = R.grid();
		R.sel = R.bcharge(gr[g() % gr.size()]);
		rnd_blocks(R, g, 85);
		return R;
	};
	c.U = side(bond);
	c.V = side(inv);
	return c;
}
static void block(Rng &g, int reps)
{
	Rep &r = Rep::get();
	for (int k = 0; k < reps; ++k)
	{
		const Group &G = groups()[k % groups().size()];
		bool tie = rnd(g, 0, 2) == 0;
		BlockCase c = block_case(g, G, tie);
		std::vector<double> all;
		std::ostringstream o;
		for (auto &b : c.d.blocks)
		{
			o << str(b.first) << ":";
			for (int64_t i = 0; i < b.second.size(0); ++i)
			{
				all.push_back(b.second[i].item<double>());
				o << all.back() << " ";
			}
		}
		std::sort(all.begin(), all.end(), std::greater<double>());
		double tol = pick_tol(g), pw = rnd(g, 1, 2);
		size_t n = all.size(), mn = rnd(g, 0, int(n) + 1), mx = pick_mx(g, n);
		size_t want = n ? keep({all}, tol, pw, mn, mx) : 0;
		o << "tol " << tol << " pow " << pw << " min " << mn << " max " << int64_t(mx) << " U " << c.U.describe() << " V " << c.V.describe();
		// values equal to the smallest kept one go together (degenerate multiplets are not split)
		auto kept_in = [&](double x) { return want && x >= all[want - 1]; };
		auto expect = [&](const Ref &A, const btensor &got, const char *who)
		{
			std::string bad = invalid(got);
			if (!bad.empty())
				return r.fail(std::string(who) + " invalid after truncation: " + bad);
			Ref R = read(got);
			r.check(R.rank() == A.rank() && R.sel == A.sel, (std::string(who) + " rank or selection rule changed").c_str());
			// same blocks minus those of the dropped sections, cut to the kept values
			std::map<idx_t, T> w;
			for (auto &b : A.blocks)
			{
				auto it = c.d.blocks.find({b.first.back()});
				if (it == c.d.blocks.end())
				{
					w[b.first] = b.second; // nothing to truncate with
					continue;
				}
				int64_t m = 0;
				for (int64_t i = 0; i < it->second.size(0); ++i)
					m += kept_in(it->second[i].item<double>());
				if (m)
					w[b.first] = b.second.narrow(-1, 0, m);
			}
			bool ok = w.size() == R.blocks.size();
			for (auto i = w.begin(), j = R.blocks.begin(); ok && i != w.end(); ++i, ++j)
				ok = i->first == j->first && same_tensor(i->second, j->second);
			r.check(ok, (std::string(who) + " is not cut to the kept values").c_str());
			// charges unchanged, and the bond sections that keep values have exactly the kept size
			for (size_t d = 0; ok && d < A.rank(); ++d)
				for (size_t s = 0; s < A.dims[d].size(); ++s)
				{
					r.check(R.dims[d][s].second == A.dims[d][s].second, (std::string(who) + " charge changed").c_str());
					if (d + 1 < A.rank())
						r.check(R.dims[d][s].first == A.dims[d][s].first, (std::string(who) + " other dimension changed").c_str());
				}
		};
		r.begin("block truncate(U,d,V) " + o.str());
		guarded(
		    [&]
		    {
			    btensor U = c.U.make(&g), d = c.d.make(&g), V = c.V.make(&g);
			    auto [tu, td, tv] = truncate(std::move(U), std::move(d), std::move(V), mx, mn, tol, pw);
			    expect(c.U, tu, "left factor");
			    expect(c.d, td, "spectrum");
			    expect(c.V, tv, "right factor");
			    size_t cnt = 0;
			    for (auto &b : td)
				    cnt += std::get<1>(b).size(0);
			    if (!tie)
				    r.check(cnt == want, "total number of kept values");
			    // the bonds agree
			    Ref a = read(tu), b = read(td), e = read(tv);
			    for (auto &kb : b.blocks)
				    r.check(a.dims.back()[kb.first[0]].first == kb.second.size(0) && e.dims.back()[kb.first[0]].first == kb.second.size(0), "bond section sizes differ between the factors");
		    });
		r.begin("block truncate(e,S) " + o.str());
		guarded(
		    [&]
		    {
			    btensor U = c.U.make(&g), d = c.d.make(&g);
			    auto [td, tu] = truncate(std::move(d), std::move(U), mx, mn, tol, pw);
			    expect(c.d, td, "spectrum");
			    expect(c.U, tu, "eigenvectors");
		    });
		r.count("block truncations");
	}
	// truncated block svd
	for (int k = 0; k < reps / 3; ++k)
	{
		const Group &G = groups()[k % groups().size()];
		Ref A = rnd_struct(g, G, rnd(g, 2, 3), 3, 3);
		rnd_blocks(A, g, 80);
		if (A.blocks.empty())
			continue;
		size_t split = rnd(g, 1, int(A.rank()) - 1);
		double tol = pick_tol(g) * 4;
		size_t mn = rnd(g, 0, 4), mx = pick_mx(g, 4);
		r.begin("truncated block svd split " + std::to_string(split) + " tol " + std::to_string(tol) + " min " + std::to_string(mn) + " max " + std::to_string(int64_t(mx)) + " " + A.describe());
		guarded(
		    [&]
		    {
			    btensor t = A.make(&g);
			    auto [u, d, v] = quantit::svd(t, split);
			    std::vector<double> all;
			    for (auto &b : d)
				    for (int64_t i = 0; i < std::get<1>(b).size(0); ++i)
					    all.push_back(std::get<1>(b)[i].item<double>());
			    std::sort(all.begin(), all.end(), std::greater<double>());
			    size_t w = keep({all}, tol, 2, mn, mx);
			    if (w && w < all.size() && all[w - 1] - all[w] < 1e-6)
				    return; // a multiplet at the cut
			    auto [tu, td, tv] = quantit::svd(t, split, tol, mn, mx, 2);
			    std::vector<double> kept;
			    for (auto &b : td)
				    for (int64_t i = 0; i < std::get<1>(b).size(0); ++i)
					    kept.push_back(std::get<1>(b)[i].item<double>());
			    std::sort(kept.begin(), kept.end(), std::greater<double>());
			    bool ok = kept.size() == w;
			    for (size_t i = 0; ok && i < w; ++i)
				    ok = std::abs(kept[i] - all[i]) < 1e-6;
			    r.check(ok, "kept singular values of the truncated block svd");
			    r.check(invalid(tu).empty() && invalid(td).empty() && invalid(tv).empty(), "invalid factor");
		    });
		r.count("block decompositions");
	}
}

int main(int argc, char **argv)
{
	Rep &r = Rep::get();
	r.init(argc, argv);
	torch::set_num_threads(1);
	Rng g(r.seed);
	torch::manual_seed(r.seed);
	dense(g, r.thorough() ? 20000 : 1500);
	block(g, r.thorough() ? 20000 : 1500);
	return r.finish();
}
