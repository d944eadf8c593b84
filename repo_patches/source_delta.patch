From 7860abd5375913bc2906f9150e66fc254082f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 01/33] fix: Barrier::wait must read the barrier count under
 the lock

Reading it before taking the lock is a data race, and when more threads
than num_waiters share the barrier, the count may advance between the read
and the lock. The late caller then went straight through the barrier.
---
 src/Barrier.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..b97a348 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -55,9 +55,11 @@ namespace SoDa {
     }
     
     // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
+      // this must be read under the lock: if it were read before, the
+      // barrier could advance before we get here, and we'd pass through alone.
+      auto old_barrier_count = barrier_count; 
       
       waiting++; 
       if(waiting == num_waiters) {
-- 
2.43.0


From f94ddacd91c83a758ebf0e86053656cf8386102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 02/33] fix: waiters at a barrier that timed out must get
 Corrupt

Setting barrier_count on a timeout woke the other waiters as if the barrier
had been cleared, so they returned normally although the group was not
complete; threads that arrived later waited for the full timeout, or forever.
The documentation promises a Corrupt exception to all of them.
---
 src/Barrier.cxx | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index b97a348..0464c3e 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -61,6 +61,11 @@ namespace SoDa {
       // barrier could advance before we get here, and we'd pass through alone.
       auto old_barrier_count = barrier_count; 
       
+      // a broken barrier stays broken. 
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
+
       waiting++; 
       if(waiting == num_waiters) {
 	// reset -- nobody will be waiting anymore
@@ -73,26 +78,24 @@ namespace SoDa {
 	// and does the right thing wrt the race between bumping
 	// the barrier_count and getting to the point where we're
 	// testing things. 
-	bool is_ok = cv.wait_for(lock, 
-				 timeout,
-				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
-				 });
+	cv.wait_for(lock, 
+		    timeout,
+		    [old_barrier_count, this]() {
+		      return corrupted || (old_barrier_count != barrier_count); 
+		    });
 	
-	// if the barrier hasn't advanced, then we timed out.
-	if (!is_ok) {
+	// if the barrier hasn't advanced, then we timed out, or somebody else did.
+	if (old_barrier_count == barrier_count) {
 	  // that's really bad, as we've got a broken barrier.
 	  // If we return it will be truly broken, and everyone will
 	  // hang. Though it is likely that everyone is hung already.
-	  bool old_corrupt = corrupted; 
-	  if(old_corrupt) {
+	  if(corrupted) {
 	    throw Barrier::Corrupt(*this);
 	  }
 	  else {
 	    // we're the first one to timout. 
 	    corrupted = true; 
-	    // set the barrier count to infinity, and wake everyone up
-	    barrier_count = 0xffffffff;
+	    // wake everyone up
 	    cv.notify_all();
 	    throw Barrier::Timeout(*this, timeout);
 	  }
-- 
2.43.0


From 8b47acdd7cfa2f0ea1f457dd3a71a3b009dc5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 03/33] fix: very long barrier timeouts must not expire
 immediately

Timeouts beyond the range of the clock (e.g. ULONG_MAX ms or
milliseconds::max()) overflowed when added to the current time and timed out
at once, breaking the barrier. Limit them to the 1000 days used for 'no timeout'.
---
 src/Barrier.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index 0464c3e..c4219f7 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -37,9 +37,13 @@ namespace SoDa {
     corrupted = false; 
   }
 
+  // About 1000 days. Much longer timeouts overflow the clock's range, and
+  // would expire immediately. 
+  static const std::chrono::milliseconds max_timeout(std::chrono::seconds(3600 * 24 * 1000)); 
+
   void Barrier::wait(unsigned long timeout_ms) {
-    if(timeout_ms == 0) {
-      wait(std::chrono::seconds(3600 * 24 * 1000));
+    if((timeout_ms == 0) || (timeout_ms > (unsigned long) max_timeout.count())) {
+      wait(max_timeout);
     }
     else {
       wait(std::chrono::milliseconds(timeout_ms));    
@@ -50,8 +54,8 @@ namespace SoDa {
   // guided, informed, enlightened by
   // http::/github.com/kirksaunders/barrier  Nice work. 
   void Barrier::wait(const std::chrono::duration<long, std::milli> & timeout) {
-    if(timeout.count() == 0) {
-      return wait(std::chrono::seconds(3600 * 24 * 1000));
+    if((timeout.count() == 0) || (timeout.count() > max_timeout.count())) {
+      return wait(max_timeout);
     }
     
     // bump the waiting count
-- 
2.43.0


From 3c8279a8200e44a31fcbd45a16867f553dd5b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 04/33] fix: MailBoxBase::convert leaked the demangled type
 names

Each failed conversion leaked two strings allocated by __cxa_demangle.
---
 include/MailBox.hxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..8462c0f 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -5,6 +5,7 @@
 #include <memory>
 #include <mutex>
 #include <typeinfo>
+#include <cstdlib>
 #include <cxxabi.h>
 
 #include "Format.hxx"
@@ -215,11 +216,14 @@ namespace SoDa {
       auto ret = std::dynamic_pointer_cast<T>(p);
       if(ret == nullptr) {
 	int st1, st2; 
-	// this demangling is pretty dicey... 
-	throw BadConversion(p->name, abi::__cxa_demangle(typeid(p).name(), 
-						nullptr, nullptr, &st1), 
-			    abi::__cxa_demangle(typeid(ret).name(), 
-						nullptr, nullptr, &st2));
+	// this demangling is pretty dicey... the demangled names are malloc'ed. 
+	std::unique_ptr<char, void(*)(void*)> from(abi::__cxa_demangle(typeid(p).name(), 
+								       nullptr, nullptr, &st1), 
+						   std::free);
+	std::unique_ptr<char, void(*)(void*)> to(abi::__cxa_demangle(typeid(ret).name(), 
+								     nullptr, nullptr, &st2), 
+						 std::free);
+	throw BadConversion(p->name, from.get(), to.get()); 
       }
       return ret; 
     }
-- 
2.43.0


From 593c2285c5a38c2c59847eae481b2bb12e3a5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 05/33] fix: ending a subscription twice must not terminate the
 program

After a call to the public unsubscribe method, the destructor of the
Subscription threw MissingSubscriber, which called std::terminate.
---
 include/MailBox.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 8462c0f..dd96fa2 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -280,7 +280,12 @@ namespace SoDa {
       }
 
       ~SubscriptionCl() {
-	this_mbox->unsubscribe(subscriber_index);
+	try {
+	  this_mbox->unsubscribe(subscriber_index);
+	}
+	catch (MissingSubscriber & e) {
+	  // unsubscribe was called before: nothing left to do. 
+	}
       }
 
       int getIndex(MailBox<T> * mbox) const {
-- 
2.43.0


From 4b5813a931deb88689a5053fe5dabf5a97e609c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 06/33] fix: addI put a separator between the sign and the
 first digit

-123 with separator ',' came out as -,123.
---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..61f84b5 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -162,7 +162,7 @@ namespace SoDa {
       std::string newstr;
       int i = 0; 
       for(auto c : vstr) {
-	if(i == 3) {
+	if((i == 3) && (c != '-')) {
 	  newstr = sep + newstr;
 	  i = 0; 
 	}
-- 
2.43.0


From 56c893b2c6c3569611d66d9d17005b803ea3642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 07/33] fix: addU put separators into the blank padding of
 decimal fields

addU(1234, 'd', 10, ',', 3) gave " ,   ,  1,234".
---
 src/Format.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 61f84b5..da8bf90 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -210,7 +210,8 @@ namespace SoDa {
     case 'd':
     case 'D':
     default:
-      if(w != 0) pre_ss << std::setw(w);
+      // when there are separators, we can't pad until they are in place.
+      if((w != 0) && (sep == '\000')) pre_ss << std::setw(w);
       pre_ss << std::dec << v; 
       valstr = pre_ss.str();
       prefix = "";		
@@ -245,6 +246,9 @@ namespace SoDa {
 	i++; 
 	cc++;
       }
+      if(not_hex && not_oct && (newstr.size() < w)) {
+	newstr.insert(0, w - newstr.size(), ' ');
+      }
       result = prefix + newstr; 
     }
 
-- 
2.43.0


From 765e94187982bcee7ca2a3d49706e6ebc47dd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 08/33] fix: addF printed negative infinity as inf

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index da8bf90..f1933ce 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -409,7 +409,7 @@ namespace SoDa {
       return *this;
     }
     else if (std::isinf(v)) {
-      insertField(pad("inf", width));
+      insertField(pad((v < 0) ? "-inf" : "inf", width));
       return *this;
     }
     
-- 
2.43.0


From 3dc9d24c0dff50e08a9cba3b2c0f22af97f17e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 09/33] fix: addF must use the radix separator for every value
 and format

SoDa::Format::separator was only used when printing zero in 'e' format.
---
 src/Format.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index f1933ce..2cf36df 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -493,7 +493,10 @@ namespace SoDa {
       }
     }
 
-    insertField(ss.str());
+    // put the preferred radix separator in. 
+    std::string fstr = ss.str(); 
+    std::replace(fstr.begin(), fstr.end(), '.', separator);
+    insertField(fstr);
     return *this;     
   }
 
-- 
2.43.0


From 54c85c92089ca3668723f3c4153badb59390fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 10/33] fix: addF ignored the width when printing zero in 'e'
 format

---
 src/Format.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Format.cxx b/src/Format.cxx
index 2cf36df..e87b2b8 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -443,6 +443,7 @@ namespace SoDa {
 	//std::cerr << "Got zero " << v << "\n";
 	ss << "0" << separator << std::left 
 	   << std::setw(significant_digits - 1) << std::setfill('0') << 0 << "e0";
+	ss.str(pad(ss.str(), width)); 
       }
       else {
 	// get the abs val
-- 
2.43.0


From 54df5cf2ed6d9ae74db52b6cc52178a5590237c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 11/33] fix: 'e' format never returned for very large and very
 small values

log1k scaled the rounded value back to its original magnitude, which
overflowed near DBL_MAX and underflowed to zero for the smallest denormals;
the loop looking for the exponent then never ended. Keep track of the decimal
exponent instead. This also keeps the integer part below 1000: values that
rounded to exactly 1000 were printed as 1000e+0 instead of 1e+3.
---
 src/Format.cxx | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index e87b2b8..731b8f8 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -287,14 +287,14 @@ namespace SoDa {
     int ret = 0;
     v_norm = v; 
     // round it first
-    double remul = 1.0; 
+    int log10v = 0; // v is v_norm times 10 to the log10v
     while(v_norm >= 10.0) {
       v_norm = v_norm / 10.0;
-      remul = remul * 10.0;
+      log10v++;
     }
     while(v_norm < 1.0) {
       v_norm = v_norm * 10.0;
-      remul = remul / 10.0;
+      log10v--;
     }
     // now create the round incr
     double ri = 5;    
@@ -306,21 +306,19 @@ namespace SoDa {
     v_norm += ri;
     //std::cerr << "Now v_norm = " << v_norm << "\n";
 
-    // now restore v_norm to the original magnitude more or less
-    v_norm = v_norm * remul;
-
-    // ok, now take the log1k
-    if(v_norm < 1.0) {
-      while(v_norm < 1.0) {
-	ret -= 3; 
-	v_norm = v_norm * 1000.0; 
-      }
+    // ok, now take the log1k: the largest multiple of 3 that isn't above log10v.
+    // (Don't restore v_norm to its original magnitude, as that may overflow or
+    // underflow.)
+    ret = 3 * (int) floor(log10v / 3.0); 
+    while(log10v > ret) {
+      v_norm = v_norm * 10.0;
+      log10v--; 
     }
-    else {
-      while(v_norm > 1000.0) {
-	ret += 3; 
-	v_norm = v_norm / 1000.0; 
-      }
+
+    // rounding might have bumped us up to the next multiple of 3
+    if(v_norm >= 1000.0) {
+      ret += 3; 
+      v_norm = v_norm / 1000.0; 
     }
     return ret; 
   }
-- 
2.43.0


From 45c127b68f31a4f445b7a46095d80b361e5b52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 12/33] fix: 'e' format printed a digit too many for values
 that round to a power of ten

The width of the integer part 10 was taken to be 1, so 9.95 with two
significant digits could be printed as 10.0e+0.
---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 731b8f8..0d079a3 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -325,7 +325,7 @@ namespace SoDa {
 
   int getIntPartWidth(double v) {
     int ret = 0; 
-    while(v > 1.0) {
+    while(v >= 1.0) {
       v = v / 10.0; 
       ret++; 
     }
-- 
2.43.0


From 6cf0a77ae474e000c2fe12f2ca01fc668056ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 13/33] fix: 'e' format printed garbage for more than ten
 significant digits

The fraction digits were collected in an int, which overflowed.
---
 src/Format.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 0d079a3..5eca094 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -333,7 +333,7 @@ namespace SoDa {
   }
   
   void fractionate(double v, unsigned int significant_digits, 
-		   int & int_part, int & frac_part,
+		   int & int_part, std::string & frac_part,
 		   int & int_wid, int & frac_wid) {
     // v is in the range 1 to 1000 - epsilon. 
     // How many digits did it take up?
@@ -363,14 +363,14 @@ namespace SoDa {
     
     //std::cerr << "dfrac_part " << dfrac_part  << "\n";
     // now trim the fractional part. 
-    frac_wid = 0; frac_part = 0;
+    frac_wid = 0; frac_part.clear();
     int sd_left = significant_digits - iw;
     //std::cerr << "sd_left = " << sd_left << "\n";
     while(sd_left > 0) {
       dfrac_part = dfrac_part * 10.0;
       //std::cerr << "New dfrac_part " << dfrac_part << " floor(dfp) " << floor(dfrac_part) 
       //		<< " frac_part " << frac_part << "\n";
-      frac_part = 10 * frac_part + floor(dfrac_part);
+      frac_part.push_back('0' + (int) floor(dfrac_part));
       double junk;
       dfrac_part = modf(dfrac_part, &junk);
       //std::cerr << "new frac_part " << frac_part 
@@ -456,7 +456,8 @@ namespace SoDa {
 	int exp_val = log1k(av, av_norm, significant_digits);
 	//std::cerr << "av_norm " << av_norm << " exp_val " << exp_val << "\n";
 	// now do the fraction and rounding
-	int frac_part, int_part, int_wid, frac_wid;
+	int int_part, int_wid, frac_wid;
+	std::string frac_part; 
 	fractionate(av_norm, significant_digits,
 		    int_part, frac_part, 
 		    int_wid, frac_wid);
-- 
2.43.0


From 609208fea8abcca8441075a7408639fb747942f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 14/33] fix: Format_ext::addU truncated values wider than an
 unsigned int

---
 include/Format.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index d20e841..24f6f18 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -587,7 +587,7 @@ namespace SoDa {
       return *saved_ptr; 
     }
 
-    T & addU(unsigned int v, char fmt = 'd', unsigned int width = 0,
+    T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-- 
2.43.0


From ae2a6a7134d9dfec9f848edc41bd471092cf97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 15/33] fix: chained calls on a copied Format_ext object acted
 on the original

---
 include/Format.hxx | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index 24f6f18..d639372 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -574,7 +574,8 @@ namespace SoDa {
      * from Format_ext. 
      */
     Format_ext(const std::string & fmt_string, T * p) : Format(fmt_string) {
-      saved_ptr = p; 
+      // The add methods derive the T object from "this" (a saved pointer
+      // would still designate the original after this object was copied.)
     }
 
     /**
@@ -584,37 +585,35 @@ namespace SoDa {
      */
     T & addI(int v, unsigned int width = 0, char sep = '\000') { 
       Format::addI(v, width, sep);
-      return *saved_ptr; 
+      return static_cast<T&>(*this); 
     }
 
     T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-      return *saved_ptr;       
+      return static_cast<T&>(*this); 
     }
 
     T & addF(double v, char fmt = 'f', unsigned int width = 0, unsigned int significant_digits = 6) {
       Format::addF(v, fmt, width, significant_digits);
-      return *saved_ptr; 
+      return static_cast<T&>(*this); 
     }
 
     T & addS(const std::string & v, int width = 0) {
       Format::addS(v, width);
-      return *saved_ptr; 
+      return static_cast<T&>(*this); 
     }
     
     T & addC(char v) {
       Format::addC(v);
-      return *saved_ptr; 
+      return static_cast<T&>(*this); 
     }
     
     T & addB(bool v) {
       Format::addB(v);
-      return *saved_ptr; 
+      return static_cast<T&>(*this); 
     }
-  private:
-    T * saved_ptr; 
   };
 }
 
-- 
2.43.0


From 831c0a3e8378eb292ad8bc4df24a77220d524c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 16/33] fix: squashSpaces read before the start of empty and
 blank strings

---
 src/Split.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Split.cxx b/src/Split.cxx
index 3491f38..ad21f63 100644
--- a/src/Split.cxx
+++ b/src/Split.cxx
@@ -45,8 +45,8 @@ namespace SoDa {
     size_t pos = 0;
 
     // trim the string. 
-    while(ret.front() == ' ') ret.erase(0, 1);
-    while(ret.back() == ' ') ret.pop_back();
+    while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);
+    while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();
     
     while((pos = ret.find(' ', pos)) != std::string::npos) {
       if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
-- 
2.43.0


From d2f4440af5f646856b079837585526432a406497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 17/33] fix: getPosArg read beyond the positional arguments

---
 src/Options.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..1ba7770 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -78,7 +78,7 @@ namespace SoDa {
   }
 
   std::string Options::getPosArg(int idx) {
-    if(idx > pos_arg_vec.size()) return std::string("");
+    if((idx < 0) || (((size_t) idx) >= pos_arg_vec.size())) return std::string("");
     else return pos_arg_vec[idx]; 
   }
 
-- 
2.43.0


From 3ef0fcef1ddfc61aa7775ec18d378020ad25ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 18/33] fix: a failed parse left the option parser waiting for
 a signed value

---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 1ba7770..f49f61f 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // an earlier parse may have stopped while waiting for a value.
+    waiting_for_signed = false; 
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From eafa8f23ba4004000ed6b2688f05129035368c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 19/33] fix: vector options of signed types must accept
 negative values

---
 include/Options.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 0f35472..993d612 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -586,7 +586,7 @@ posargs =
 	     const std::string & doc_str, 
 	     const std::function<bool(T)> & test_func = allGood, 
 	     const std::string & err_msg = std::string("")) :
-	OptBase(doc_str, err_msg, false), 
+	OptBase(doc_str, err_msg, std::is_signed<T>::value), 
 	argvec_p(v_vec), 
 	test_func(test_func)
       {
-- 
2.43.0


From b1bb47848a867327bdb478fc3c4e97436b33dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 20/33] fix: an option at the end of the command line was
 silently dropped

---
 src/Options.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index f49f61f..3ea9763 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -243,6 +243,14 @@ namespace SoDa {
 	}
       }
     }
+
+    // the last option on the line may not have gotten a value.
+    if(arg_p != nullptr) {
+      if(!arg_p->hasDefault()) {
+	throw BadOptValueException(arg_p->long_name, "", "The option needs a value."); 
+      }
+      arg_p->setPresent(); 
+    }
     }
     catch (BadOptValueException & exc) {
       std::cerr << exc.what() << "\n";
-- 
2.43.0


From 2b3971929b8aea0bd84b945ba89ac9941a9404ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 21/33] fix: key=value lists mangled empty values, values with
 '=', and values like switches

---
 src/Options.cxx | 55 +++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 3ea9763..f9886a2 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -318,27 +318,42 @@ namespace SoDa {
   
   bool Options::parseKeyValue(const std::list<std::string> & l_kvp) {
     // for each item in the kvp list,
-    // trim the item,
-    // add the pair to a token list
-    std::list<std::string> tknlist; 
-    
-    for(auto kv_a : l_kvp) {
-      auto kv = SoDa::squashSpaces(kv_a);
-      
-      // now we've got a key=value pair.  Split that at the =
-      auto kvp = SoDa::split(kv, std::string("="));
-      auto key = kvp.front();
-      auto value = kvp.back();
-
-      // ok. now we're going to re-use some stuff from the "parse a
-      // command line" functions
-      key = "--" +  key;
-
-      tknlist.push_back(key);
-      tknlist.push_back(value);
-      // find the option name
+    // trim the item, split it at the first "=", and pass the value (if any)
+    // to the option. 
+    try {
+      for(auto kv_a : l_kvp) {
+	auto kv = SoDa::squashSpaces(kv_a);
+	if(kv.empty()) continue;
+
+	auto eq_pos = kv.find('=');
+	auto key = kv.substr(0, eq_pos);
+
+	auto arg_p = findOpt(key);
+	if(arg_p == nullptr) {
+	  throw BadOptionNameException(key); 
+	}
+
+	if(eq_pos != std::string::npos) {
+	  arg_p->setVal(kv.substr(eq_pos + 1)); 
+	}
+	else if(arg_p->isPresentOpt() || arg_p->hasDefault()) {
+	  arg_p->setPresent(); 
+	}
+	else {
+	  throw BadOptValueException(key, "", "The option needs a value."); 
+	}
+      }
+    }
+    catch (BadOptValueException & exc) {
+      std::cerr << exc.what() << "\n";
+      return false; 
+    }
+    catch (BadOptionNameException & exc) {
+      std::cerr << exc.what() << "\n";
+      printHelp(std::cerr);
+      return false; 
     }
 
-    return parse(tknlist);    
+    return true; 
   }
 }
-- 
2.43.0


From a2cb186f17a34c62e200a0c6f5067e2852b9bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 22/33] fix: property lookup must descend into the child named
 by each path element

---
 src/PropertyTree.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..140831f 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -72,9 +72,10 @@ namespace SoDa {
     if(pathlist.size() == 0) {
       return this; 
     }
-    else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+    auto it = dictionary.find(pathlist.front());
+    if(it != dictionary.end()) {
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return it->second->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From 5efd22f8abcd8a4d1fa7a34d09c0bf25c8753141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 23/33] fix: PropertyTree::get must return false for a missing
 path unless exceptions were requested

---
 include/PropertyTree.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..83b563b 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,7 +133,8 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
-	throw PropNode::PropertyNotFound(pathname); 
+	// getProp throws if the caller asked for exceptions
+	return false; 
       }
       
       return pn->get<T>(v, throw_exception);
-- 
2.43.0


From 4217bae922ed0062e02ea5026cf971e2208c5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 24/33] fix: string properties were cut at the first blank, and
 branches read as values

---
 include/PropertyTree.hxx | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 83b563b..b4f94cc 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -167,9 +167,7 @@ namespace SoDa {
        * @throws SoDa::PropertyTree::BadPropertyType
        */
       template<typename T> bool get(T & v, bool throw_exception = false) {
-	std::stringstream ss(val_string, std::ios_base::in);
-	ss >> v; 
-	if(ss.fail()) {
+	if(!is_terminal || !readVal(v)) {
 	  if(throw_exception) {
 	    throw PropertyTree::PropNode::BadPropertyType(getPathName(), typeid(v).name(), val_string);
 	      }
@@ -237,6 +235,25 @@ namespace SoDa {
       }; 
       
     protected: 
+      /**
+       * @brief read a value from the value string
+       * @returns true if the value string denotes a value of type T
+       */
+      template<typename T> bool readVal(T & v) {
+	std::stringstream ss(val_string, std::ios_base::in);
+	ss >> v; 
+	return !ss.fail();
+      }
+      
+      /**
+       * @brief a string property is the whole value string, including 
+       * blanks, if there are any.
+       */
+      bool readVal(std::string & v) {
+	v = val_string;
+	return true; 
+      }
+
       /**
        * @brief get a property node from this node's dictionary
        * @param pathlist the original pathname split into 
-- 
2.43.0


From 042738715d6ea8380472390d8bb2791807892c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 25/33] fix: getPathName must report the keys that lead to a
 node, not its value

---
 src/PropertyTree.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 140831f..549739b 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -40,7 +40,15 @@ namespace SoDa {
   std::string PropertyTree::PropNode::getPathName() {
     std::string ret;
     if(parent != nullptr) {
-      ret = parent->getPathName() + ":" + val_string;
+      ret = parent->getPathName();
+      // the name of this node is its key in the parent's dictionary
+      // (items in a list have no name.)
+      for(auto & a : parent->dictionary) {
+	if(a.second == this) {
+	  ret = ret.empty() ? a.first : (ret + ":" + a.first);
+	  break; 
+	}
+      }
     }
     
     return ret; 
-- 
2.43.0


From f8950ed4fedce3737917e90864ae3701a4798457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 26/33] fix: BadPropertyType did not name the type

---
 src/PropertyTree.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 549739b..375e8dc 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -162,7 +162,7 @@ namespace SoDa {
   PropertyTree::PropNode::BadPropertyType::BadPropertyType(const std::string & path_name, 
 							   const std::string & type_name, 
 							   const std::string & val_string) :
-    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"2\"")
+    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"%2\"")
 	      .addS(path_name)
 	      .addS(val_string)
 	      .addS(type_name)
-- 
2.43.0


From bc751d2f663c3ff24ac2a450bb54ca9b6693f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 27/33] fix: reading a list in a property file used a node
 after it was destroyed

---
 src/PropertyTreeYAML.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..244d68c 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -90,7 +90,10 @@ namespace SoDa {
 	// pass it along, as all prop tree nodes are lists or dictionaries
 	// or both
 	
-	for(auto n : it->second) {
+	// (Keep a copy of the node, the iterator's value doesn't outlive
+	// the range expression.)
+	YAML::Node seq(it->second); 
+	for(auto n : seq) {
 	  fillRecurse(n, prop);
 	}
       }
-- 
2.43.0


From d6edcf8600da29cac28b51f899b13f40a1fe97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 28/33] fix: top level and nested lists in a property file
 threw YAML exceptions

---
 src/PropertyTreeYAML.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 244d68c..2642b0e 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -65,6 +65,13 @@ namespace SoDa {
       prop->prop_list.push_back(pnp); 
       return; 
     }
+    if(node.IsSequence()) {
+      // a list at the top level, or a list within a list
+      for(auto n : node) {
+	fillRecurse(n, prop);
+      }
+      return; 
+    }
     for(YAML::const_iterator it = node.begin(); 
 	it != node.end(); 
 	++it) {
-- 
2.43.0


From f82cca360fb75883f6c00eaf4281911dc52c4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 29/33] fix: malformed property files must throw
 PropertyTree::BadSyntax

---
 include/PropertyTree.hxx |  5 +++++
 src/PropertyTree.cxx     |  9 +++++++++
 src/PropertyTreeYAML.cxx | 10 +++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index b4f94cc..eb350e4 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -278,6 +278,11 @@ namespace SoDa {
       FileNotFound(const std::string & fname);
     }; 
 
+    class BadSyntax : public SoDa::Exception {
+    public:
+      BadSyntax(const std::string & fname, const std::string & problem);
+    }; 
+
   protected:
     PropNode * root; 
   };
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 375e8dc..2536656 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -152,6 +152,15 @@ namespace SoDa {
 	      .addS(str).str())
   {
   }
+
+  PropertyTree::BadSyntax::BadSyntax(const std::string & fname, const std::string & problem) :
+    Exception(SoDa::Format("PropertyTree::BadSyntax in file \"%0\": %1")
+	      .addS(fname)
+	      .addS(problem)
+	      .str())
+  {
+  }
+
   PropertyTree::PropNode::PropertyNotFound::PropertyNotFound(const std::string & str) :
     Exception(SoDa::Format("PropertyTree::PropNode::PropertyNotFound \"%0\"")
 	      .addS(str)
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 2642b0e..3154319 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -50,9 +50,17 @@ namespace SoDa {
     catch(YAML::BadFile & e) {
       throw PropertyTree::FileNotFound(e.what());
     }
+    catch(YAML::Exception & e) {
+      throw PropertyTree::BadSyntax(filename, e.what());
+    }
     
     // now recursively create the tree
-    fillRecurse(TopNode, root);
+    try {
+      fillRecurse(TopNode, root);
+    }
+    catch(YAML::Exception & e) {
+      throw PropertyTree::BadSyntax(filename, e.what());
+    }
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-- 
2.43.0


From d40555df161d4bad6adffbc79f7b64dfe87eeab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 30/33] fix: options of unsigned types accepted negative
 numbers as huge values

---
 include/Options.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 993d612..0d114c4 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -498,7 +498,8 @@ posargs =
       void setValBase(T & v, const std::string & vstr) {
 	std::stringstream ss(vstr, std::ios::in); 
 	ss >> v;
-	if(!ss) {
+	// (streams read negative numbers into unsigned types: they wrap around)
+	if(!ss || (std::is_unsigned<T>::value && (vstr.find('-') != std::string::npos))) {
 	  throw BadOptValueException(long_name, vstr, err_msg); 
 	}
       }
-- 
2.43.0


From 94ba3158aa862c3e2df76e7d6ebf7c9ee209a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 31/33] fix: unsigned properties accepted negative numbers as
 huge values

---
 include/PropertyTree.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index eb350e4..a9da7b2 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -242,6 +242,10 @@ namespace SoDa {
       template<typename T> bool readVal(T & v) {
 	std::stringstream ss(val_string, std::ios_base::in);
 	ss >> v; 
+	// (streams read negative numbers into unsigned types: they wrap around)
+	if(std::is_unsigned<T>::value && (val_string.find('-') != std::string::npos)) {
+	  return false;
+	}
 	return !ss.fail();
       }
       
-- 
2.43.0


From 4873b11e4b8d6bb005abe17fa01cc36818230aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 32/33] fix: placeholders with huge numbers wrapped around to
 small ones

---
 src/Format.cxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 5eca094..61df1cc 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -67,6 +67,7 @@ namespace SoDa {
 
     std::string cur_str;
     unsigned int cur_fldnum = 0; 
+    const unsigned int max_fldnum = ~0; 
     for(auto c : fmt_string) {
       switch (s_state) {
       case NORM:
@@ -90,6 +91,7 @@ namespace SoDa {
 	  // and indicate that we're scanning for the rest of the field number
 	  s_state = ACC_FLDNUM; 
 	  cur_fldnum = (unsigned int) (c - '0');
+	  cur_str = std::string("%") + c; 
 	}
 	else {
 	  // push a % and the current char onto the current string
@@ -102,11 +104,16 @@ namespace SoDa {
 	break; 
       case ACC_FLDNUM:
 	if(isdigit(c)) {
-	  cur_fldnum = cur_fldnum * 10 + ((unsigned int) (c - '0'));
+	  unsigned int digit = (unsigned int) (c - '0'); 
+	  // a number that's too big must not wrap around to designate a small one.
+	  cur_fldnum = (cur_fldnum > (max_fldnum - digit) / 10) ? max_fldnum : (cur_fldnum * 10 + digit); 
+	  cur_str.push_back(c); 
 	}
 	else {
 	  // we scanned an fld, now push the fmt specifier
 	  format_string_segments.push_back(FmtStringSeg(cur_fldnum));
+	  // (until it gets a value, the field looks like it did in the format string)
+	  format_string_segments.back().val = cur_str; 
 	  // set the state if we aren't looking at a new %
 	  if(c == '%') {
 	    s_state = SAW_PC;
@@ -137,6 +144,7 @@ namespace SoDa {
       break;
     case ACC_FLDNUM:
       format_string_segments.push_back(FmtStringSeg(cur_fldnum));
+      format_string_segments.back().val = cur_str; 
       break; 
     }
   }
@@ -571,9 +579,7 @@ namespace SoDa {
 	ret_string = ret_string + fld.val;
       }
       else if(fld.seg_type == FmtStringSeg::FMT_VAL) {
-	std::stringstream ss;
-	ss << '%' << fld.idx;
-	ret_string = ret_string + ss.str();
+	ret_string = ret_string + fld.val;
 	unfilled_count++; 
       }
     }
-- 
2.43.0


From 16f3fdf343fff1cb3d9458d2b7d3ce8fd253b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 33/33] fix: addU with a group size of zero printed a stray
 separator

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 61df1cc..72ba5a7 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -246,7 +246,7 @@ namespace SoDa {
 	sep_lim -= 1; 
       }
       for(char c : valstr) {
-	if((i == group_count) && (cc < sep_lim)) {
+	if((i != 0) && (i == group_count) && (cc < sep_lim)) {
 	  newstr = sep + newstr; 
 	  i = 0; 
 	}
-- 
2.43.0

