// N02 ground state search on the real code: active pairs, centre, number of sweeps, energy, Hamiltonian untouched
#include "mps.h"
#include "dmrg.h"
#include "models.h"

struct Log : dmrg_logger
{
	std::vector<size_t> steps;
	std::vector<double> E;
	size_t ends = 0, end_step = 0;
	double end_E = 0;
	double last = 0;
	void log_step(size_t) override {}
	void log_energy(const torch::Tensor &e) override {}
	void log_energy(const btensor &e) override {}
	void log_bond_dims(const MPS &) override {}
	void log_bond_dims(const bMPS &) override {}
	template <class X, class S>
	void it(size_t n, const X &e, const S &s)
	{
		steps.push_back(n);
		E.push_back(e.item().toDouble());
		if (!(size_t(s.orthogonality_center) + 1 < s.size()))
			Rep::get().fail("the active pair is outside the chain between two sweeps");
	}
	void it_log_all(size_t n, const torch::Tensor &e, const MPS &s) override { it(n, e, s); }
	void it_log_all(size_t n, const btensor &e, const bMPS &s) override { it(n, e, s); }
	void end_log_all(size_t n, const torch::Tensor &e, const MPS &) override { ++ends, end_step = n, end_E = e.item().toDouble(); }
	void end_log_all(size_t n, const btensor &e, const bMPS &) override { ++ends, end_step = n, end_E = e.item().toDouble(); }
};
static double average(const std::vector<T> &psi, const std::vector<T> &h)
{
	T e = torch::ones({1, 1, 1}, torch::kDouble);
	T n = torch::ones({1, 1}, torch::kDouble);
	for (size_t i = 0; i < psi.size(); ++i)
	{
		e = torch::tensordot(e, psi[i], {0}, {0});
		e = torch::tensordot(e, h[i], {0, 2}, {0, 3});
		e = torch::tensordot(e, psi[i].conj(), {0, 2}, {0, 1});
		n = torch::tensordot(n, psi[i], {0}, {0});
		n = torch::tensordot(n, psi[i].conj(), {0, 1}, {0, 1});
	}
	return e.item<double>() / n.item<double>();
}
template <class MPO_t, class MPS_t>
static void search(Rep &r, MPO_t &H, MPS_t &psi, size_t start, const dmrg_options &opt)
{
	const size_t L = psi.size();
	psi.move_oc(L - 1);
	psi.move_oc(0);
	psi.move_oc(start);
	psi[start] /= sqrt(contract(psi, psi));
	auto h0 = densify(H);
	double before = average(densify(psi), h0);
	Log log;
	auto E = dmrg(H, psi, opt, log);
	auto v = densify(psi), h = densify(H);
	r.check(same_list(h, h0), "the Hamiltonian was changed");
	r.check(size_t(psi.orthogonality_center) == start, "the centre is not where it was");
	r.check(psi.size() == L && bonds_match(v), "the state is malformed");
	r.check(log.steps.size() <= opt.maximum_iterations, "too many iterations");
	r.check(log.ends == 1, "end of the search not reported once");
	for (size_t i = 0; i < log.steps.size(); ++i)
		r.check(log.steps[i] == i, "iterations are not numbered in order");
	for (size_t i = 0; i < L; ++i)
	{
		r.check(i >= start || left_isometry(v[i]), "a tensor on the left of the centre is not an isometry");
		r.check(i <= start || right_isometry(v[i]), "a tensor on the right of the centre is not an isometry");
	}
	if (!log.E.empty())
	{
		double e = E.item().toDouble();
		r.check(e == log.E.back() && log.end_E == e, "the energy returned is not the last one computed");
		double now = average(v, h0);
		// the last pair is optimised before the truncation, that is below rounding here
		r.check(std::abs(now - e) < 1e-6, "the energy is not that of the state");
		r.check(now < before + 1e-6, "the energy of the state increased");
		for (size_t i = 1; i < log.E.size(); ++i)
			r.check(log.E[i] < log.E[i - 1] + 1e-7, "the energy increased between two sweeps");
	}
}
int main(int argc, char **argv)
{
	Rep &r = Rep::get();
	r.init(argc, argv);
	torch::set_num_threads(1);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	torch::manual_seed(r.seed);
	Rng g(r.seed);
	using Zq = quantity<conserved::Z>;
	btensor phys({{{1, Zq(1)}, {1, Zq(-1)}}}, Zq(0), torch::TensorOptions().dtype(torch::kDouble));
	const int maxL = r.thorough() ? 8 : 6, reps = r.thorough() ? 4 : 1;
	for (int rep = 0; rep < reps; ++rep)
		for (int L = 2; L <= maxL; ++L)
			for (int start = 0; start < L; ++start)
				for (size_t it : {0, 1, 2, 3, 60})
					for (int blocks = 0; blocks < 2; ++blocks)
					{
						double J = rnd(g, 0, 1) ? -1. : 0.75;
						dmrg_options opt(1e-13, 1e-9);
						opt.maximum_iterations = it;
						opt.minimum_bond = rnd(g, 1, 4);
						r.begin((blocks ? "blocks L=" : "dense L=") + std::to_string(L) + " centre " + std::to_string(start) + " iterations " + std::to_string(it) + " J " + std::to_string(J) + " minimum bond " + std::to_string(opt.minimum_bond) + " rep " + std::to_string(rep));
						guarded(
						    [&]
						    {
							    if (blocks)
							    {
								    auto H = Heisenberg(torch::full({}, J), L, phys);
								    auto psi = random_bMPS(4, H, Zq(L % 2), {}, g());
								    search(r, H, psi, start, opt);
							    }
							    else
							    {
								    auto H = Heisenberg(torch::full({}, J), L);
								    auto psi = random_MPS(3, H);
								    for (auto &t : psi)
									    t = t - 0.5;
								    search(r, H, psi, start, opt);
							    }
						    });
					}
	return r.finish();
}
