// Compares every tabulated operation of binary8tab with the emulated format it tabulates.
#include <stdio.h>
#include <string.h>
#include <math.h>
#include "binary8.hpp"
#include "anyfloat.hpp"
typedef anyfloat_emu<BINARY8_EXP, BINARY8_MAN, int8_t, uint8_t, float> X;
static long bad = 0, checked = 0;
static const char *name = "binary8";
static void report(const char *type, const char *op, int a, int b, long got, long want)
{
	if (bad++ < 20) printf("MISMATCH %s %s a=%d b=%d got=%ld want=%ld\n", type, op, a, b, got, want);
}
static uint32_t fbits(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
#define CK(op, a, b, got, want) do { checked++; long g_ = (long)(got), w_ = (long)(want); if (g_ != w_) report(name, op, a, b, g_, w_); } while (0)
static int8_t v8(X x) { return (int8_t)x.v; }
int main()
{
	typedef binary8tab T; T::DeepInit D;
	static float f[256];
	for (int i = 0; i < 256; i++) { X x; x.v = (uint8_t)(i - 128); f[i] = (float)x; }
	for (int i = 0; i < 256; i++)
	{
		int a = i - 128; T t(D, a); X x; x.v = (uint8_t)a;
		CK("float", a, 0, fbits((float)t), fbits(f[i]));
		{ double d = (double)t, e = (double)f[i]; uint64_t di, ei; memcpy(&di, &d, 8); memcpy(&ei, &e, 8); CK("double", a, 0, di, ei); }
		if (f[i] > -2e9f && f[i] < 2e9f) CK("int", a, 0, (int)t, (int)f[i]);
		CK("inv", a, 0, t.inv().v, v8(x.inv())); CK("inv()", a, 0, inv(t).v, v8(x.inv()));
		CK("square", a, 0, t.square().v, v8(X(f[i] * f[i]))); CK("half", a, 0, t.half().v, v8(X(f[i] / 2)));
		CK("exp2", a, 0, t.exp2().v, v8(X(exp2(f[i]))));
		for (int j = 0; j < 256; j++)
		{
			int b = j - 128; T u(D, b);
			CK("add", a, b, (t + u).v, v8(X(f[i] + f[j])));
			CK("sub", a, b, (t - u).v, v8(X(f[i] - f[j])));
			CK("mul", a, b, (t * u).v, v8(X(f[i] * f[j])));
			CK("div", a, b, (t / u).v, v8(X(f[i] / f[j])));
			{ T c = t; c += u; CK("add=", a, b, c.v, v8(X(f[i] + f[j]))); }
			{ T c = t; c *= u; CK("mul=", a, b, c.v, v8(X(f[i] * f[j]))); }
		}
	}
	printf("CHECKED %ld BAD %ld\n", checked, bad);
	return bad != 0;
}
