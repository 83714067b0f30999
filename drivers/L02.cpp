// L02 block decompositions on the real code: valid factors, matching bond, sectors, rebuilt content
#include "bt.h"
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include "numeric"
using T = torch::Tensor;

static T rfill(const idx_t &s, Rng &g)
{
	auto t = torch::empty(s, torch::kDouble);
	auto p = t.data_ptr<double>();
	for (int64_t i = 0; i < t.numel(); ++i)
		p[i] = int(g() % 2001) / 1000.0 - 1.0;
	return t;
}
using Dims = std::vector<std::vector<std::pair<int64_t, any_quantity>>>;
static Dims inverse(Dims d)
{
	for (auto &x : d)
		for (auto &s : x)
			s.second = s.second.inverse();
	return d;
}
static bool same_dims(const Dims &a, const Dims &b)
{
	Ref x, y;
	x.dims = a;
	y.dims = b;
	return same_sections(x, y);
}
static any_quantity combined(const Dims &d, const idx_t &b, size_t from, size_t to, const any_quantity &zero)
{
	any_quantity q = zero;
	for (size_t i = from; i < to; ++i)
		q += d[i][b[i]].second;
	return q;
}
struct QLess
{
	bool operator()(const any_quantity &a, const any_quantity &b) const { return any_quantity_cref(a) < any_quantity_cref(b); }
};
static T values(const btensor &d)
{
	std::vector<T> v;
	for (auto &b : d)
		v.push_back(std::get<1>(b).to(torch::kDouble));
	return v.empty() ? torch::zeros({0}, torch::kDouble) : std::get<0>(torch::cat(v).sort());
}
// columns of a factor, restricted to one bond section, are orthonormal; different sections are orthogonal
static bool isometry(const Ref &U)
{
	T m = U.dense();
	int64_t n = m.size(-1);
	m = m.reshape({-1, n});
	return close_tensor(torch::mm(m.t(), m), torch::eye(n, torch::kDouble), 1e-8);
}
static void bond_checks(Rep &r, const Ref &F, const Ref &d, const char *who)
{
	bool ok = F.rank() >= 1 && d.rank() == 1 && F.dims.back().size() == d.dims[0].size();
	for (size_t s = 0; ok && s < d.dims[0].size(); ++s)
		ok = F.dims.back()[s].first == d.dims[0][s].first;
	r.check(ok, (std::string("bond sections of ") + who + " differ from those of the spectrum").c_str());
	for (auto &b : F.blocks)
		r.check(d.blocks.count({b.first.back()}), "a factor has a block on a bond section without values");
}
static void svds(Rng &g, int reps)
{
	Rep &r = Rep::get();
	for (int k = 0; k < reps; ++k)
	{
		const Group &G = groups()[k % groups().size()];
		size_t rank = rnd(g, 2, 4);
		Ref A = rnd_struct(g, G, rank, rank > 3 ? 2 : 3, 3);
		int pc = (int[]){40, 70, 100, 100}[rnd(g, 0, 3)];
		for (auto &b : A.allowed_blocks())
			if (rnd(g, 0, 99) < pc)
				A.blocks[b] = rfill(A.bsizes(b), g);
		if (A.blocks.empty())
			continue;
		size_t split = rnd(g, 1, rank - 1);
		bool matrix = rank == 2 && rnd(g, 0, 1);
		r.begin(std::string(matrix ? "svd matrix " : "svd split ") + std::to_string(split) + " " + A.describe() + " #" + std::to_string(k));
		r.count("svd");
		guarded(
		    [&]
		    {
			    btensor t = A.make(&g);
			    Ref before = deep(read(t));
			    auto [U, d, V] = matrix ? svd(t) : svd(t, split);
			    r.check(same_all(before, read(t)), "the operand was modified");
			    for (auto p : {std::make_pair(&U, "left factor"), std::make_pair(&d, "spectrum"), std::make_pair(&V, "right factor")})
			    {
				    auto bad = invalid(*p.first);
				    if (!bad.empty())
					    return r.fail(std::string(p.second) + " invalid: " + bad);
			    }
			    Ref u = read(U), dd = read(d), v = read(V), vc = read(V.conj());
			    r.check(u.rank() == split + 1 && same_dims(Dims(u.dims.begin(), u.dims.end() - 1), Dims(A.dims.begin(), A.dims.begin() + split)), "outer dimensions of the left factor");
			    r.check(vc.rank() == rank - split + 1 && same_dims(Dims(vc.dims.begin(), vc.dims.end() - 1), Dims(A.dims.begin() + split, A.dims.end())), "outer dimensions of the right factor");
			    bond_checks(r, u, dd, "the left factor");
			    bond_checks(r, v, dd, "the right factor");
			    r.check(same_dims({u.dims.back()}, inverse({vc.dims.back()})), "bond charges of the factors do not match");
			    for (auto &q : dd.dims[0])
				    r.check(q.second == G.zero, "the spectrum carries a charge");
			    // sectors of the matrix form
			    std::map<any_quantity, int, QLess> sectors;
			    for (auto &b : A.blocks)
				    sectors[combined(A.dims, b.first, 0, split, G.zero)]++;
			    r.check(dd.dims[0].size() == sectors.size(), "number of bond sections differs from the number of sectors");
			    r.check(dd.blocks.size() == dd.dims[0].size(), "a bond section without values");
			    std::set<any_quantity, QLess> bonds;
			    for (size_t s = 0; s < u.dims.back().size(); ++s)
				    for (auto &b : u.blocks)
					    if (size_t(b.first.back()) == s)
					    {
						    auto q = combined(u.dims, b.first, 0, split, G.zero);
						    r.check(sectors.count(q), "a bond section for a sector without blocks");
						    bonds.insert(q);
					    }
			    r.check(bonds.size() == sectors.size(), "sectors mixed or lost");
			    // content
			    r.check(close_tensor(read(tensordot(U.mul(d), V.conj(), {int64_t(split)}, {int64_t(rank - split)})).dense(), A.dense(), 1e-8), "the factors do not rebuild the tensor");
			    r.check(isometry(u) && isometry(v), "a factor is not an isometry");
			    T M = A.dense();
			    int64_t rows = 1;
			    for (size_t i = 0; i < split; ++i)
				    rows *= M.size(i);
			    T sv = std::get<0>(std::get<1>(M.reshape({rows, -1}).svd()).sort());
			    T got = values(d);
			    int64_t n = std::min(sv.size(0), got.size(0));
			    r.check(close_tensor(sv.narrow(0, sv.size(0) - n, n), got.narrow(0, got.size(0) - n, n), 1e-7), "singular values");
		    });
	}
}
static void eighs(Rng &g, int reps)
{
	Rep &r = Rep::get();
	for (int k = 0; k < reps; ++k)
	{
		const Group &G = groups()[k % groups().size()];
		size_t h = rnd(g, 1, 2);
		Ref A;
		for (size_t i = 0; i < h; ++i)
			A.dims.push_back(rnd_dim(g, G, 3, 3));
		auto inv = inverse(A.dims);
		A.dims.insert(A.dims.end(), inv.begin(), inv.end());
		A.sel = G.zero;
		int pc = (int[]){50, 80, 100}[rnd(g, 0, 2)];
		for (auto &b : A.allowed_blocks())
		{
			idx_t m(b.begin() + h, b.end());
			m.insert(m.end(), b.begin(), b.begin() + h);
			bool diag = m == b;
			// the Hermitian block pair is stored together; a sector is complete on its diagonal
			if (m < b || (!diag && rnd(g, 0, 99) >= pc))
				continue;
			auto t = rfill(A.bsizes(b), g);
			std::vector<int64_t> p;
			for (size_t i = 0; i < 2 * h; ++i)
				p.push_back((i + h) % (2 * h));
			if (diag)
				A.blocks[b] = t + t.permute(p);
			else
			{
				A.blocks[b] = t;
				A.blocks[m] = t.permute(p).clone();
			}
		}
		if (A.blocks.empty())
			continue;
		bool matrix = h == 1 && rnd(g, 0, 1), upper = rnd(g, 0, 1);
		r.begin(std::string(matrix ? "eigh matrix " : "eigh split ") + A.describe() + " #" + std::to_string(k));
		r.count("eigh");
		guarded(
		    [&]
		    {
			    btensor t = A.make(&g);
			    Ref before = deep(read(t));
			    auto [e, S] = matrix ? eigh(t, quantit::BOOL(upper)) : eigh(t, h);
			    r.check(same_all(before, read(t)), "the operand was modified");
			    for (auto p : {std::make_pair(&e, "spectrum"), std::make_pair(&S, "eigenvectors")})
			    {
				    auto bad = invalid(*p.first);
				    if (!bad.empty())
					    return r.fail(std::string(p.second) + " invalid: " + bad);
			    }
			    Ref s = read(S), d = read(e);
			    r.check(s.rank() == h + 1 && same_dims(Dims(s.dims.begin(), s.dims.end() - 1), Dims(A.dims.begin(), A.dims.begin() + h)), "outer dimensions of the eigenvectors");
			    bond_checks(r, s, d, "the eigenvectors");
			    r.check(close_tensor(read(tensordot(S.mul(e), S.conj(), {int64_t(h)}, {int64_t(h)})).dense(), A.dense(), 1e-8), "the factors do not rebuild the tensor");
			    r.check(isometry(s), "the eigenvectors are not orthonormal");
			    std::set<any_quantity, QLess> sectors;
			    for (auto &b : A.blocks)
				    sectors.insert(combined(A.dims, b.first, 0, h, G.zero));
			    r.check(d.dims[0].size() == sectors.size(), "number of bond sections differs from the number of sectors");
		    });
	}
}
int main(int argc, char **argv)
{
	Rep &r = Rep::get();
	r.init(argc, argv);
	torch::set_num_threads(1);
	Rng g(r.seed);
	svds(g, r.thorough() ? 12000 : 1200);
	eighs(g, r.thorough() ? 6000 : 600);
	return r.finish();
}
