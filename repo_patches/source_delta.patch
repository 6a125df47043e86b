From 7ea9d7dbc92d7cbaade2b31d41e0e93219601986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 1/4] fix: table generators report failure when the table could
 not be written

posit8_gen, posit10_gen, posit12_gen and binary8_gen exited 0 when the
output could not be opened, written, flushed or closed (full disk, no
permission, I/O error), leaving a missing, stale or truncated table behind
a successful status. Check the stream after closing it and exit 1.
---
 src/binary8_gen.cpp | 6 ++++++
 src/posit10_gen.cpp | 6 ++++++
 src/posit12_gen.cpp | 6 ++++++
 src/posit8_gen.cpp  | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/src/binary8_gen.cpp b/src/binary8_gen.cpp
index 29f10c2..f502239 100644
--- a/src/binary8_gen.cpp
+++ b/src/binary8_gen.cpp
@@ -98,6 +98,12 @@ int main(int argc, char const *argv[])
 	for(int i  = 0; i < 256; i++)
 		onf << (op2float[i]) << ",";
 	onf << "};} " << std::endl;
+	onf.close();
+	if(!onf)
+	{
+		std::cerr << "binary8_gen: cannot write the table" << std::endl;
+		return 1;
+	}
 	return  0;
 }
 
diff --git a/src/posit10_gen.cpp b/src/posit10_gen.cpp
index fbca1cb..c39bb35 100644
--- a/src/posit10_gen.cpp
+++ b/src/posit10_gen.cpp
@@ -97,5 +97,11 @@ int main(int argc, char const *argv[])
 	for(int i  = 0; i < 1024; i++)
 		onf << (op2float[i]) << ",";
 	onf << "};} " << std::endl;
+	onf.close();
+	if(!onf)
+	{
+		std::cerr << "posit10_gen: cannot write the table" << std::endl;
+		return 1;
+	}
 	return  0;
 }
diff --git a/src/posit12_gen.cpp b/src/posit12_gen.cpp
index c106030..10c5647 100644
--- a/src/posit12_gen.cpp
+++ b/src/posit12_gen.cpp
@@ -67,5 +67,11 @@ int main(int argc, char const *argv[])
 	for(int i  = 0; i < 4096; i++)
 		onf << (op2float[i]) << ",";
 	onf << "};} " << std::endl;
+	onf.close();
+	if(!onf)
+	{
+		std::cerr << "posit12_gen: cannot write the table" << std::endl;
+		return 1;
+	}
 	return  0;
 }
diff --git a/src/posit8_gen.cpp b/src/posit8_gen.cpp
index b7bbc90..53e615b 100644
--- a/src/posit8_gen.cpp
+++ b/src/posit8_gen.cpp
@@ -97,5 +97,11 @@ int main(int argc, char const *argv[])
 	for(int i  = 0; i < 256; i++)
 		onf << (op2float[i]) << ",";
 	onf << "};} " << std::endl;
+	onf.close();
+	if(!onf)
+	{
+		std::cerr << "posit8_gen: cannot write the table" << std::endl;
+		return 1;
+	}
 	return  0;
 }
-- 
2.43.0


From cc74c8a801a127f7f7213a6eaaedf1434f614043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 2/4] fix: printing leaves the stream format flags as they were

Printing an Unpacked left the stream in decimal mode for good, and printing
a Posit left it in decimal mode when the insertion threw (stream exceptions
enabled and a failing sink). Restore the flags on every exit path.
---
 include/posit.h    |  6 ++----
 include/unpacked.h | 12 ++++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 665384a..eeb9652 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -570,8 +570,8 @@ std::ostream & operator << (std::ostream & ons, Posit<T,totalbits,esbits,FT,posi
 	// - as float
 	// - as raw
 	// - as parsed
-	auto af = ons.flags();
-	auto f = af & std::ios::basefield;
+	iosflagsaver restore(ons);
+	auto f = ons.flags() & std::ios::basefield;
 	ons.setf(std::ios::dec, std::ios::basefield);
 	if(f == std::ios::hex)
 	{
@@ -585,8 +585,6 @@ std::ostream & operator << (std::ostream & ons, Posit<T,totalbits,esbits,FT,posi
 	{
 		ons << o.unpack();
 	}	
-	// reset
-	ons.setf(af & std::ios::basefield, std::ios::basefield);
 	return ons;
 }
 #endif
diff --git a/include/unpacked.h b/include/unpacked.h
index b794ebd..7e7ec38 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -31,6 +31,17 @@
 #include "typehelpers.hpp"
 
 
+#ifndef FPGAHLS
+/// restores the stream format flags also when the insertion throws
+struct iosflagsaver
+{
+  std::ostream &ons;
+  std::ios::fmtflags saved;
+  explicit iosflagsaver(std::ostream &o) : ons(o), saved(o.flags()) {}
+  ~iosflagsaver() { ons.flags(saved); }
+};
+#endif
+
 template <class T>
 constexpr const T &clamp(const T &v, const T &lo, const T &hi)
 {
@@ -471,6 +482,7 @@ struct Unpacked
 #ifndef FPGAHLS
   friend std::ostream &operator<<(std::ostream &ons, Unpacked const &o)
   {
+    iosflagsaver restore(ons);
     switch (o.type)
     {
     case Unpacked::Regular:
-- 
2.43.0


From 8837d9d456e828f620f6c8ae3fd7340172e3af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 3/4] fix: binary8tab conversions set the value

The constructors from int, float and double left the stored value
uninitialised. Convert through the format the tables are generated from.
---
 src/binary8.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/binary8.cpp b/src/binary8.cpp
index c36d481..79810a2 100644
--- a/src/binary8.cpp
+++ b/src/binary8.cpp
@@ -4,15 +4,22 @@
  * Emanuele Ruffaldi 2017
  */
 #include "binary8.hpp"
+#include "anyfloat.hpp"
+
+// same format as the tables of binary8_gen
+using binary8conv=anyfloat_emu<BINARY8_EXP,BINARY8_MAN,int8_t,uint8_t,float>;
 
 binary8tab::binary8tab(int a)
+	: v(binary8conv(a).v)
 {
 }
 
 binary8tab::binary8tab(float a)
+	: v(binary8conv(a).v)
 {
 }
 
 binary8tab::binary8tab(double a) 
+	: v(binary8conv(a).v)
 {
 }
-- 
2.43.0


From d3484107aeb0a8871192e5190db7c7c1d9aab1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 4/4] fix: binary8tab negation flips the sign bit

binary8 is a sign-magnitude format: negating the stored word as an integer
gave an unrelated value, and subtraction, built on negation, was wrong for
almost every operand pair.
---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index ac042df..141efdb 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -90,7 +90,7 @@ public:
 	binary8tab twice() const;
 	binary8tab exp2() const { return binary8tab(DeepInit(),binary8ns::opexp2[uu()]); }
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
-	binary8tab operator-() const { return binary8tab(DeepInit(),-v);  }
+	binary8tab operator-() const { return binary8tab(DeepInit(),v ^ trait_t::signbit);  }
 
 	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
 	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-- 
2.43.0

