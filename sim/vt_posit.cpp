// Compares every tabulated operation of posit8, posit10 and posit12 with the untabulated type
// of the same format computing through float. Compiled per run against the tables under test.
#include <stdio.h>
#include <string.h>
#include <math.h>
#include "posit.h"
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
static long bad = 0, checked = 0;
static void report(const char *type, const char *op, int a, int b, long got, long want)
{
	if (bad++ < 20) printf("MISMATCH %s %s a=%d b=%d got=%ld want=%ld\n", type, op, a, b, got, want);
}
static uint32_t fbits(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
#define CK(op, a, b, got, want) do { checked++; long g_ = (long)(got), w_ = (long)(want); if (g_ != w_) report(name, op, a, b, g_, w_); } while (0)
template <class T> static void unary(const char *name, int bits)
{
	typedef typename T::FPT X;
	for (int s = -(1 << (bits - 1)); s < (1 << (bits - 1)); s++)
	{
		X x(typename X::DeepInit(), (typename T::value_t)s); T t(typename T::DeepInit(), (typename T::value_t)s);
		float fx = (float)x;
		CK("float", s, 0, fbits((float)t), fbits(fx));
		{ double d = (double)t, e = (double)fx; uint64_t di, ei; memcpy(&di, &d, 8); memcpy(&ei, &e, 8); CK("double", s, 0, di, ei); }
		if (fx > -2e9f && fx < 2e9f) CK("int", s, 0, (int)t, (int)fx);
		CK("inv", s, 0, t.inv().v, x.inv().v); CK("inv()", s, 0, inv(t).v, x.inv().v);
		CK("square", s, 0, t.square().v, X(fx * fx).v); CK("square()", s, 0, square(t).v, X(fx * fx).v);
		CK("exp2", s, 0, t.exp2().v, X(exp2(fx)).v);
	}
}
template <class T> static void binary(const char *name, int bits)
{
	typedef typename T::FPT X; typedef typename X::DeepInit DI; typedef typename T::DeepInit DT; typedef typename T::value_t V;
	int N = 1 << bits;
	float *f = new float[N];
	for (int i = 0; i < N; i++) f[i] = (float)X(DI(), (V)(i - N / 2));
	for (int i = 0; i < N; i++)
	{
		int a = i - N / 2; T ta(DT(), (V)a);
		CK("half", a, 0, ta.half().v, X(f[i] / 2).v); CK("half()", a, 0, half(ta).v, X(f[i] / 2).v);
		for (int j = 0; j < N; j++)
		{
			int b = j - N / 2; T tb(DT(), (V)b);
			CK("add", a, b, (ta + tb).v, X(f[i] + f[j]).v);
			CK("sub", a, b, (ta - tb).v, X(f[i] - f[j]).v);
			CK("mul", a, b, (ta * tb).v, X(f[i] * f[j]).v);
			CK("div", a, b, (ta / tb).v, X(f[i] / f[j]).v);
			{ T c = ta; c += tb; CK("add=", a, b, c.v, X(f[i] + f[j]).v); }
			{ T c = ta; c *= tb; CK("mul=", a, b, c.v, X(f[i] * f[j]).v); }
		}
	}
	delete[] f;
}
int main(int argc, char **argv)
{
	for (int i = 1; i < argc; i++)
	{
		if (!strcmp(argv[i], "posit8")) { unary<posit8>("posit8", 8); binary<posit8>("posit8", 8); }
		if (!strcmp(argv[i], "posit10")) { unary<posit10>("posit10", 10); binary<posit10>("posit10", 10); }
		if (!strcmp(argv[i], "posit12")) unary<posit12>("posit12", 12);
	}
	printf("CHECKED %ld BAD %ld\n", checked, bad);
	return bad != 0;
}
