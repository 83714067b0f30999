// N01 matrix product states on the real code: moves of the orthogonality centre, refusals
#include "mps.h"

template <class MPS_t>
static void walk(Rep &r, Rng &g, std::vector<typename MPS_t::Tens> ts)
{
	const int L = ts.size();
	MPS_t m(ts, g() % L);
	if (rnd(g, 0, 1))
	{ // copies carry the centre, and their own
		MPS_t a(m), b;
		b = a;
		if (L > 1)
			a.move_oc((size_t(a.orthogonality_center) + 1) % L);
		r.check(size_t(b.orthogonality_center) == size_t(m.orthogonality_center), "copy loses the centre, or shares it");
		m = std::move(b);
	}
	const T state = contract_all(densify(m));
	const double scale = std::max(1.0, state.abs().max().item<double>());
	auto good = [&](const char *when)
	{
		auto v = densify(m);
		std::string w = when;
		r.check(size_t(m.size()) == size_t(L), "length changed");
		r.check(bonds_match(v) && m.check_ranks(), (w + ": bonds do not match").c_str());
		r.check(close_tensor(contract_all(v) / scale, state / scale, 1e-8), (w + ": the state changed").c_str());
	};
	std::vector<int> walk = {L - 1, 0};
	for (int i = rnd(g, 0, 5); i > 0; --i)
		walk.push_back(g() % L);
	const int first = int(size_t(m.orthogonality_center));
	int moves = 0;
	for (int to : walk)
	{
		m.move_oc(to);
		r.check(size_t(m.orthogonality_center) == size_t(to), "the centre is not on the site requested");
		good("move");
		auto v = densify(m);
		for (int i = 0; i < L; ++i)
		{
			// the first move makes isometries of the tensors it passes, the second of all of them
			r.check(i >= to || (moves == 0 && i < first) || left_isometry(v[i]), "a tensor on the left of the centre is not an isometry");
			r.check(moves == 0 || i <= to || right_isometry(v[i]), "a tensor on the right of the centre is not an isometry");
		}
		++moves;
		if (rnd(g, 0, 2) == 0)
			for (int bad : {-1, L, L + 3})
			{
				r.check(throws([&] { m.move_oc(bad); }), "a site outside the chain is not refused");
				r.check(same_list(densify(m), v) && size_t(m.orthogonality_center) == size_t(to), "a refused move changed the state");
			}
	}
}
static std::string shapes(const std::vector<T> &v)
{
	std::string s;
	for (auto &t : v)
		s += str(t.sizes().vec());
	return s;
}
static void refusals(Rep &r, Rng &g, int k)
{
	const int L = rnd(g, 1, 4);
	auto v = rnd_chain(g, L, false);
	size_t oc = g() % (L + 2);
	int how = k % 4;
	int at = g() % L;
	if (how == 1) // wrong rank
		v[at] = rfill(std::vector<idx_t>{{1}, {2, 2}, {1, 2, 1, 2}, {}}[g() % 4], g);
	if (how == 2 && L > 1) // bond mismatch
		v[at] = rfill({v[at].size(0) + (at > 0), v[at].size(1), v[at].size(2) + (at == 0)}, g);
	r.begin("construction " + shapes(v) + " centre " + std::to_string(oc) + " #" + std::to_string(k));
	bool ok = bonds_match(v) && oc < size_t(L);
	guarded(
	    [&]
	    {
		    MPT raw(v.begin(), v.end());
		    r.check(throws([&] { MPS m(v, oc); }) != ok, "MPS from a list");
		    r.check(throws([&] { MPS m(raw, oc); }) != ok, "MPS from a tensor train");
		    r.check(throws([&] { MPS m(MPT(v.begin(), v.end()), oc); }) != ok, "MPS from a temporary tensor train");
		    bool one = v[0].dim() == 3 && v[0].size(0) == v[0].size(2);
		    r.check(throws([&] { MPS m(L, v[0], oc); }) != (one && oc < size_t(L)), "MPS of copies of a tensor");
		    if (oc < size_t(L))
			    r.check(size_t(MPS(L, oc).orthogonality_center) == oc, "MPS of empty tensors");
		    else
			    r.check(throws([&] { MPS m(L, oc); }), "MPS of empty tensors with a centre outside");
		    const auto &cv = v;
		    r.check(throws([&] { MPS m(cv.begin(), cv.end()); }) != bonds_match(v), "MPS from iterators");
		    std::vector<T> w;
		    for (auto &t : v)
			    w.push_back(t.dim() == 3 ? t.unsqueeze(-1) : t);
		    bool ok4 = bonds_match(w, 4);
		    r.check(throws([&] { MPO m(w); }) != ok4, "MPO from a list");
		    const auto &cw = w;
		    r.check(throws([&] { MPO m(cw.begin(), cw.end()); }) != ok4, "MPO from iterators");
		    MPT raw4(w.begin(), w.end());
		    r.check(throws([&] { MPO m(raw4); }) != ok4, "MPO from a tensor train");
		    r.check(throws([&] { MPO m(L, w[0]); }) != (w[0].dim() == 4 && w[0].size(0) == w[0].size(2)), "MPO of copies of a tensor");
	    });
}
static void brefusals(Rep &r, Rng &g, int k)
{
	const Group &G = groups()[k % groups().size()];
	const int L = rnd(g, 1, 4);
	auto v = rnd_bchain(g, G, L);
	size_t oc = g() % (L + 2);
	int how = (k / 3) % 3;
	int at = g() % L;
	bool ok = oc < size_t(L);
	if (how == 1)
	{
		v[at] = rnd_ref(g, G, rnd(g, 0, 1) ? 2 : 4).make();
		ok = false;
	}
	if (how == 2 && L > 1)
	{
		at = at == 0 ? 1 : at;
		Ref x = read(v[at]);
		x.dims[0].emplace_back(1, G.zero);
		v[at] = x.make();
		ok = false;
	}
	r.begin("block construction " + std::to_string(L) + " centre " + std::to_string(oc) + " change " + std::to_string(how) + " at " + std::to_string(at) + " " + read(v[0]).describe() + " #" + std::to_string(k));
	guarded(
	    [&]
	    {
		    bMPT raw(v.begin(), v.end());
		    r.check(throws([&] { bMPS m(v, oc); }) != ok, "bMPS from a list");
		    r.check(throws([&] { bMPS m(raw, oc); }) != ok, "bMPS from a tensor train");
		    const auto &cv = v;
		    alignas(bMPS) unsigned char mem[sizeof(bMPS)]; // filled, to see a centre left as it was
		    std::fill(mem, mem + sizeof mem, 0xab);
		    bool refused = throws(
		        [&]
		        {
			        bMPS *m = new (mem) bMPS(cv.begin(), cv.end());
			        r.check(size_t(m->orthogonality_center) < size_t(L), "bMPS from iterators: centre outside");
			        m->~bMPS();
		        });
		    r.check(refused == (how == 1 || (how == 2 && L > 1)), "bMPS from iterators");
		    r.check(size_t(bMPS(L, oc).orthogonality_center) < size_t(L), "bMPS of empty tensors with a centre outside");
	    });
}
int main(int argc, char **argv)
{
	Rep &r = Rep::get();
	r.init(argc, argv);
	torch::set_num_threads(1);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	Rng g(r.seed);
	const int n = r.thorough() ? 4000 : 500;
	r.begin("empty networks");
	guarded(
	    [&]
	    {
		    MPS a;
		    bMPS b;
		    r.check(size_t(a.orthogonality_center) == 0 && size_t(b.orthogonality_center) == 0, "empty state");
		    r.check(throws([&] { a.move_oc(0); }) && throws([&] { b.move_oc(0); }), "a move in an empty chain is not refused");
		    MPS c{std::vector<T>{}};
		    bMPS d{std::vector<btensor>{}};
		    MPO e{std::vector<T>{}};
		    bMPO f{std::vector<btensor>{}};
		    r.check(c.empty() && d.empty() && e.empty() && f.empty(), "empty networks");
	    });
	for (int k = 0; k < n; ++k)
	{
		int L = rnd(g, 1, 6);
		bool cplx = k % 3 == 2;
		auto v = rnd_chain(g, L, cplx);
		r.begin(std::string(cplx ? "complex " : "real ") + shapes(v) + " #" + std::to_string(k));
		r.count("dense walks");
		guarded([&] { walk<MPS>(r, g, v); });
	}
	for (int k = 0; k < n; ++k)
	{
		const Group &G = groups()[k % groups().size()];
		auto v = rnd_bchain(g, G, rnd(g, 1, 5));
		std::string s;
		for (auto &t : v)
			s += read(t).describe() + "; ";
		r.begin("blocks " + s + " #" + std::to_string(k));
		r.count("block walks");
		guarded([&] { walk<bMPS>(r, g, v); });
	}
	for (int k = 0; k < n; ++k)
		refusals(r, g, k);
	for (int k = 0; k < n; ++k)
		brefusals(r, g, k);
	return r.finish();
}
