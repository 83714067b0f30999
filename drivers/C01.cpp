// runs the real elementary charges over all 16 bit values against integer arithmetic
#include "common.h"
#include "Conserved/quantity.h"
using namespace quantit::conserved;

static long norm(long v, long N) { return ((v % N) + N) % N; }

template <uint16_t N>
void cyc(Rep &R)
{
	auto bad = [&](const char *w, long a, long b = 0, long c = 0) {
		std::ostringstream o;
		o << w << " C<" << N << "> " << a << " " << b << " " << c;
		R.fail(o.str());
	};
	R.begin("C<" + std::to_string(N) + "> constructor, inverse of every value");
	if (C<N>().get_val() != 0) bad("default is not neutral", 0);
	for (long v = -32768; v <= 32767; ++v)
	{
		C<N> c((int16_t)v);
		long x = norm(v, N);
		if (c.get_val() != x) bad("constructor", v, c.get_val());
		if ((uint16_t)c != x) bad("conversion", v);
		C<N> i = c.inverse();
		if (i.get_val() != norm(-x, N)) bad("inverse", v, i.get_val());
		if (c.get_val() != x) bad("inverse changed its source", v);
		C<N> k = c;
		k.inverse_();
		if (!(k == i)) bad("inverse_", v);
		k.op(c);
		if (k.get_val() != 0 || (c * i).get_val() != 0 || (i + c) != C<N>(0)) bad("charge times inverse", v);
		if ((c * C<N>()) != c || (C<N>() + c) != c) bad("neutral", v);
	}
	R.begin("C<" + std::to_string(N) + "> pairs and triples");
	std::vector<long> vals;
	if (N <= 64)
		for (long v = 0; v < N; ++v) vals.push_back(v);
	else
	{
		std::mt19937_64 g(R.seed);
		for (long v : {0L, 1L, 2L, (long)N - 1, (long)N - 2, (long)N / 2, (long)N / 2 + 1}) vals.push_back(v);
		for (int i = 0; i < (R.thorough() ? 200 : 40); ++i) vals.push_back(g() % N);
	}
	auto mk = [](long v) {
		// the constructor takes 16 bit signed integers: upper half through negatives, the middle by combination
		if (v <= 32767) return C<N>((int16_t)v);
		if (v - N >= -32768) return C<N>((int16_t)(v - N));
		C<N> r((int16_t)32767);
		r.op(C<N>((int16_t)(v - 32767)));
		return r;
	};
	for (long a : vals)
		for (long b : vals)
		{
			C<N> x = mk(a), y = mk(b);
			long s = (a + b) % N;
			if (x.get_val() != a) bad("construction", a);
			if ((x * y).get_val() != s || (x + y).get_val() != s || op(x, y).get_val() != s || (y * x).get_val() != s) bad("combination", a, b);
			C<N> t = x;
			t.op(y, false);
			if (t != x) bad("conditional combination applied", a, b);
			t.op(y, true);
			if (t.get_val() != s) bad("conditional combination", a, b);
			t = x;
			t += y;
			C<N> u = x;
			u *= y;
			if (t.get_val() != s || u.get_val() != s) bad("in place combination", a, b);
			if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x > y) != (a > b)) bad("comparison", a, b);
			if (x.distance2(y) != (a - b) * (a - b) || distance2(x, y) != (a - b) * (a - b)) bad("distance", a, b);
			C<N> p = x, q = y;
			swap(p, q);
			if (p != y || q != x) bad("swap", a, b);
			for (long c : vals)
				if (((x * y) * mk(c)) != (x * (y * mk(c)))) bad("associativity", a, b, c);
		}
}

static void ints(Rep &R)
{
	auto bad = [&](const char *w, long a, long b = 0) { R.fail(std::string(w) + " Z " + std::to_string(a) + " " + std::to_string(b)); };
	R.begin("Z every value");
	if (Z().get_val() != 0) bad("default", 0);
	for (long v = -32767; v <= 32767; ++v)
	{
		Z c((int16_t)v);
		if (c.get_val() != v || (int16_t)c != v) bad("constructor", v);
		Z i = c.inverse(), k = c;
		k.inverse_();
		if (i.get_val() != -v || k != i || c.get_val() != v) bad("inverse", v);
		if ((c * i) != Z() || (i + c).get_val() != 0 || (c * Z()) != c || (Z() + c) != c) bad("group law", v);
	}
	R.begin("Z pairs");
	std::mt19937_64 g(R.seed);
	for (int n = 0; n < 300000; ++n)
	{
		int lim = n % 2 ? 10 : 10900;
		long a = (long)(g() % (2 * lim + 1)) - lim, b = (long)(g() % (2 * lim + 1)) - lim, c = (long)(g() % (2 * lim + 1)) - lim;
		Z x(a), y(b), w(c), t(a), u(a), v(a);
		t.op(y, false);
		if (t != x) bad("conditional combination applied", a, b);
		t.op(y, true);
		u += y;
		v *= y;
		if (t.get_val() != a + b || u != t || v != t || (x * y) != t || (y + x) != t || op(x, y) != t) bad("combination", a, b);
		if (((x * y) * w) != (x * (y * w))) bad("associativity", a, b);
		if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x > y) != (a > b)) bad("comparison", a, b);
		if (x.distance2(y) != (a - b) * (a - b)) bad("distance", a, b);
		Z p = x, q = y;
		swap(p, q);
		if (p != y || q != x) bad("swap", a, b);
	}
}

template <uint16_t... N>
void all(Rep &R)
{
	(cyc<N>(R), ...);
}

int main(int argc, char **argv)
{
	Rep &R = Rep::get();
	R.init(argc, argv);
	all<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 97, 127, 128, 255, 1000, 32767, 32768, 32769, 40000, 65535>(R);
	ints(R);
	return R.finish();
}
