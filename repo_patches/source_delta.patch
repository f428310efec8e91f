From 59d5c7775828b547068c117db90d79e1f243e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 001/119] fix: PushAndPop::resize left the old indices pointing
 into (or past) the new storage

---
 .../include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..cdcc31f 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -251,6 +251,7 @@ public:
     size_fifo = length+1;
     ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
     data.resize( size_fifo );
+    clear();
   }
 
   /**
-- 
2.43.0


From 3223ae30343e585c6421421878c5f3596c332266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 002/119] fix: copying a dynamic PushAndPop of a different size
 took its indices but not its storage

---
 .../ecl/containers/push_and_pop/push_and_pop_dynamic.hpp    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index cdcc31f..8167b72 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -207,12 +207,10 @@ public:
 
   void operator() (const PushAndPop<Type,0> & otherOne )
   {
+    size_fifo = otherOne.size_fifo;
     leader = otherOne.leader;
     follower = otherOne.follower;
-    for( int i=0; i<size_fifo; i++ )
-    {
-      data[i] = otherOne.data[i];
-    }
+    data = otherOne.data;
   }
 
   /**
-- 
2.43.0


From b9e8b8247dc8d89976b664da26c1e789ac68aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 003/119] fix: FiFo::resize left its running index pointing
 into (or past) the new storage

---
 ecl_containers/include/ecl/containers/fifo.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..4c3e241 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -168,6 +168,7 @@ public:
 		size_fifo = length;
 		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
 		data.resize( size_fifo );
+		running_index = 0;
 	}
 
 private:
-- 
2.43.0


From 7d8c94c502f7889a654e2653634b733173f4fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 004/119] fix: assigning a dynamic Array to itself discarded
 its contents

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp     | 1 +
 .../include/ecl/containers/array/array_dynamic_no_mem_check.hpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..6d5d4c2 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -255,6 +255,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..b7dd704 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -242,6 +242,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-- 
2.43.0


From bc37f984a51000b0fe19c4a9d9cec3eac26c6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 005/119] fix: Stencil::at refused the first element of a
 window that starts at the array's beginning

---
 .../include/ecl/containers/stencil/specialisations.hpp    | 8 ++++----
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..1634d70 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -362,7 +362,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,7 +386,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -755,7 +755,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,7 +779,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..f8883c6 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -430,7 +430,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,7 +454,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From 67b4a16790b7784d8570f89fab32e4f2510aa839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 006/119] fix: Stencil::operator[] let the index one past the
 end of the array through its debug range check

---
 .../include/ecl/containers/stencil/specialisations.hpp    | 8 ++++----
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 1634d70..e37cba1 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -330,7 +330,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -347,7 +347,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -723,7 +723,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -740,7 +740,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index f8883c6..1354ce2 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -398,7 +398,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -415,7 +415,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
-- 
2.43.0


From dee09a750ae6b751ecbe3413b7041e12721fc123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 007/119] fix: Stencil's comma initialiser did not compile for
 any container

---
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index 1354ce2..b7c0dca 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -203,9 +203,9 @@ public:
    * @param value : the first value to enter , ElementType, ArraySizeinto the array.
    * @return BoundedListInitialiser : the comma initialiser mechanism.
    */
-  containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
+  containers::BoundedListInitialiser<value_type,iterator> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
-- 
2.43.0


From bcfbbe7e898d417c3aa115528bf2173afaea2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 008/119] fix: ReferenceWrapper::pointer() returned the object
 instead of its address and did not compile

---
 ecl_utilities/include/ecl/utilities/references.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_utilities/include/ecl/utilities/references.hpp b/ecl_utilities/include/ecl/utilities/references.hpp
index 0bc6d13..417e3ed 100644
--- a/ecl_utilities/include/ecl/utilities/references.hpp
+++ b/ecl_utilities/include/ecl/utilities/references.hpp
@@ -124,7 +124,7 @@ public:
      *
      * @return T& : the returned pointer to the wrapped object.
      */
-    T* pointer() const { return *obj_ptr; }
+    T* pointer() const { return obj_ptr; }
 
 private:
     T* obj_ptr;
-- 
2.43.0


From 080efa2d8d2882a40e3fe381a5a217930a7db51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 009/119] fix: bound member function objects stored their
 function as returning void and did not compile for any other result

---
 ecl_utilities/include/ecl/utilities/function_objects.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 28b0ed3..17ea352 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -710,7 +710,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
 };
 /**
  * @brief Nullary function object for bound unary member functions.
@@ -770,7 +770,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
     A argument;
 };
 
@@ -833,7 +833,7 @@ public:
         }
 private:
         C &member_class;
-        void (C::*member_function)(A, B);
+        R (C::*member_function)(A, B);
 };
 /*****************************************************************************
 ** Function Object Wrappers
-- 
2.43.0


From c54a3c46f94471999b9b78c4f1fe67612d018146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 010/119] fix: a token such as -x-y was taken for the -- switch
 and silently ended option parsing

---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index 5fd6f99..e8d2006 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -142,7 +142,8 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-		if ( combinedSwitches[i] == _flag[0] )
+		if ( combinedSwitches[i] == _flag[0] &&
+			 _flag[0] != Arg::flagStartChar() )
 		{
 			// update the combined switches so this one is no longer present
 			// this is necessary so that no unlabeled args are matched
-- 
2.43.0


From b65b09627ddd9092e8e34136f5c69710a10a31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 011/119] fix: switches matched letters of another argument's
 attached value (-v=abc)

---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index e8d2006..a264212 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -139,6 +139,10 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 		 Arg::nameStartString() )
 		return false;
 
+	// make sure it isn't a flag with its value attached
+	if ( combinedSwitches.find( Arg::delimiter() ) != std::string::npos )
+		return false;
+
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-- 
2.43.0


From 3149392579a4d70f1de12272d327322c28cdf24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 012/119] fix: an empty string was accepted as a number and
 left the value unread (uninitialised in a MultiArg)

---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp | 2 +-
 ecl_command_line/include/ecl/command_line/value_arg.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index 82492af..bb346b3 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -98,7 +98,7 @@ class ValueExtractor
 				valuesRead++;
 			}
 
-			if ( is.fail() )
+			if ( is.fail() || valuesRead == 0 )
 				return EXTRACT_FAILURE;
 
 			if ( valuesRead > 1 )
diff --git a/ecl_command_line/include/ecl/command_line/value_arg.hpp b/ecl_command_line/include/ecl/command_line/value_arg.hpp
index 0aedd35..81f7f49 100644
--- a/ecl_command_line/include/ecl/command_line/value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/value_arg.hpp
@@ -95,7 +95,7 @@ template<class T> class ValueExtractor
                 valuesRead++;
             }
 
-            if ( is.fail() )
+            if ( is.fail() || valuesRead == 0 )
                 return EXTRACT_FAILURE;
 
             if ( valuesRead > 1 )
-- 
2.43.0


From 9d135d1c33ea98a2a4c17edaf8e7362672cc2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 013/119] fix: usage output read before the start of a line
 that has no place to break

---
 ecl_command_line/include/ecl/command_line/std_output.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/std_output.hpp b/ecl_command_line/include/ecl/command_line/std_output.hpp
index 9a5710b..855d115 100644
--- a/ecl_command_line/include/ecl/command_line/std_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/std_output.hpp
@@ -238,10 +238,10 @@ inline void StdOutput::spacePrint( std::ostream& os,
 
 			// trim the length so it doesn't end in middle of a word
 			if ( stringLen == allowedLen )
-				while ( s[stringLen+start] != ' ' &&
+				while ( stringLen >= 0 &&
+						s[stringLen+start] != ' ' &&
 			   	        s[stringLen+start] != ',' &&
-			   	        s[stringLen+start] != '|' &&
-						stringLen >= 0 )
+			   	        s[stringLen+start] != '|' )
 					stringLen--;
 
 			// ok, the word is longer than the line, so just split
-- 
2.43.0


From 889643953bbac8ccc4a7812f65cf2895abcfce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 014/119] fix: a member of an exclusive group given amongst
 combined switches did not count as given

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 67ae615..7d9ef1f 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -383,12 +383,16 @@ inline void CmdLine::parse(int argc, char** argv)
 		bool matched = false;
 		for (ArgListIterator it = _argList.begin(); it != _argList.end(); it++)
         {
+			bool wasSet = (*it)->isSet();
 			if ( (*it)->processArg( &i, args ) )
 			{
 				requiredCount += _xorHandler.check( *it );
 				matched = true;
 				break;
 			}
+			// a switch found amongst combined switches counts too
+			if ( !wasSet && (*it)->isSet() )
+				requiredCount += _xorHandler.check( *it );
         }
 
 		// checks to see if the argument is an empty combined switch ...
-- 
2.43.0


From 00f022325670c31f0f932ea4cd3d7b499411c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 015/119] fix: roots of a cubic without a cubic term are those
 of the quadratic

---
 ecl_geometry/src/lib/polynomial.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc64d2e..057188d 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -97,6 +97,12 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	double c = polynomial.coefficients()[1];
 	double d = polynomial.coefficients()[0];
 
+	if ( a == 0 ) { // not a cubic at all
+		QuadraticPolynomial quadratic;
+		quadratic.coefficients() << d, c, b;
+		return Roots<QuadraticPolynomial>()(quadratic);
+	}
+
 //	form the companion matrix (http://stackoverflow.com/questions/2003465/fastest-numerical-solution-of-a-real-cubic-polynomial)
 //	ecl::linear_algebra::Matrix3d A;
 //	A << 0, 0, -d/a, 1, 0, -c/a, 0, 1, -b/a;
-- 
2.43.0


From 7de544d676f04f044d2087c82a43010c3ae0c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 016/119] fix: a cubic whose depressed form is t^3 + pt with p
 > 0 has one real root

---
 ecl_geometry/src/lib/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 057188d..e48df5b 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -128,7 +128,7 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 //		std::cout << "Single root from cube root function" << std::endl;
 		intercepts.resize(1);
 		intercepts << ecl::cube_root(-q)+ shift;
-	} else if ( q == 0 ) {
+	} else if ( ( q == 0 ) && ( p < 0 ) ) {
 //		std::cout << "Three real roots" << std::endl;
 		// three real roots
 		intercepts.resize(3);
-- 
2.43.0


From 4c99cb5786a91bcb923ef1050e6ea47aaa0ec4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 017/119] fix: Intersection::fail() reports the last operation,
 not any earlier one

---
 ecl_geometry/src/lib/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index e48df5b..11feed2 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -167,6 +167,7 @@ CartesianPoint2d Intersection< LinearFunction >::operator()(const LinearFunction
 		last_operation_failed = true;
 		ecl_throw(StandardException(LOC,OutOfRangeError,"Functions are collinear, no intersection possible."));
 	} else {
+		last_operation_failed = false;
 		point.x((a_0 - a_1)/(b_1 - b_0));
 		point.y(f(point.x()));
 	}
-- 
2.43.0


From 224de77944fbcba33b40dd650bb24eb268388dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 018/119] fix: a tension spline through two points has no
 interior knot to solve for

---
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ed11de8..4bf0e7f 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -79,8 +79,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
      *
      * etc
      */
-    u[1] = beta[1] + beta[0];
-    v[1] = gamma[1]-gamma[0];
+    if ( n > 1 ) { // a single segment has no interior knot
+        u[1] = beta[1] + beta[0];
+        v[1] = gamma[1]-gamma[0];
+    }
     for ( unsigned int i = 2; i < n; ++i ) {
         u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];
         v[i] = gamma[i]-gamma[i-1] - a[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From 10998925e4f1481032a4a1cde210b3e254a608b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:44 +0000
Subject: [PATCH 019/119] fix: Pose2D default construction, product and
 (dangling) translation and rotation matrix

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index dd4544c..6335096 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -120,7 +120,7 @@ public:
    *
    * @param xyh: x, y, heading wrapped in an eigen vector3d type.
    */
-  Pose2D(): xyh(0.0) {}
+  Pose2D(): xyh(XYH::Zero()) {}
 
   /**
    * @brief Construction by element.
@@ -152,7 +152,7 @@ public:
    * @return Pose2D<Float> : the concatenated pose
    */
   Pose2D<Float> operator*(const Pose2D<Float> &pose) const {
-    return concatenate_poses(this->xyh, pose);
+    return concatenate_poses(this->xyh, pose.xyh);
   }
 
   /**
@@ -175,11 +175,11 @@ public:
   const Float& x() const { return xyh[0]; }        //!< @brief Get the x-coordinate.
   const Float& y() const { return xyh[1]; }        //!< @brief Get the y-coordinate.
   const Float& heading() const { return xyh[2]; }  //!< @brief Get the heading.
-  const Translation& translation() const { return xyh. template head<2>(); }
+  Translation translation() const { return xyh. template head<2>(); }
   /**
    * @brief Representation of the heading in matrix form.
    **/
-  const RotationMatrix& rotationMatrix() const {
+  RotationMatrix rotationMatrix() const {
     Float c = std::cos(xyh[2]);
     Float s = std::sin(xyh[2]);
     return (RotationMatrix() << c, -s, s, c).finished();
-- 
2.43.0


From ebec9ef2e7c0be39c23d744078ff490e01aec6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:44 +0000
Subject: [PATCH 020/119] fix: extending a pose by itself used the half updated
 pose

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 6335096..548c373 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -82,10 +82,11 @@ void extend_pose(
   (void) dummy;
   Float c = std::cos(pose[2]);
   Float s = std::sin(pose[2]);
-  pose <<
-    pose[0] + c*extending_pose[0] - s*extending_pose[1],
-    pose[1] + s*extending_pose[0] + c*extending_pose[1],
-    wrap_angle(pose[2] + extending_pose[2]);
+  // compute all of it before storing any, the extension may be the pose itself
+  Float x = pose[0] + c*extending_pose[0] - s*extending_pose[1];
+  Float y = pose[1] + s*extending_pose[0] + c*extending_pose[1];
+  Float h = wrap_angle(pose[2] + extending_pose[2]);
+  pose << x, y, h;
 }
 
 /*****************************************************************************
-- 
2.43.0


From a32db85c56abc1e738b1828abb5d8cddd4db1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:44 +0000
Subject: [PATCH 021/119] fix: LegacyPose3D built from an angle axis ignored
 its arguments

---
 ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
index 6a1851f..bc9670d 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
@@ -121,13 +121,9 @@ public:
          */
         template<typename Trans>
         LegacyPose3D(const ecl::linear_algebra::AngleAxis<Float>& angle_axis, const ecl::linear_algebra::MatrixBase<Trans>& translation) :
-            rot(RotationMatrix::Identity()),
-            trans(Translation::Zero())
-        {
-                (void) angle_axis;
-                (void) translation;
-                /* TODO */
-        }
+            rot(angle_axis.toRotationMatrix()),
+            trans(translation)
+        {}
         /**
          * @brief Initialise from an eigen Quaternion and a translation.
          *
-- 
2.43.0


From e5c28a13089b4a97ed27c71a9c025dc2b698e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:44 +0000
Subject: [PATCH 022/119] fix: appending to a trajectory that is not empty

---
 ecl_geometry/src/lib/odometry_helper.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/odometry_helper.cpp b/ecl_geometry/src/lib/odometry_helper.cpp
index 25e39c4..02c0b0f 100644
--- a/ecl_geometry/src/lib/odometry_helper.cpp
+++ b/ecl_geometry/src/lib/odometry_helper.cpp
@@ -108,7 +108,9 @@ void addAtEnd(Trajectory2D& target, const Trajectory2D& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target), extra = size(addition);
+  target.conservativeResize(Eigen::NoChange, old_size + extra);
+  target.rightCols(extra) = addition.leftCols(extra);
 }
 
 void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
@@ -119,7 +121,9 @@ void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target), extra = size(addition);
+  target.conservativeResize(Eigen::NoChange, old_size + extra);
+  target.rightCols(extra) = addition.leftCols(extra);
 }
 
 Trajectory2D vectorToTrajectory(const std::vector<Pose2D>& vec)
-- 
2.43.0


From 1d75cf89bd76082dde74fe4094ec04c5fa64893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:16 +0000
Subject: [PATCH 023/119] fix: differences of time stamps of opposite sign were
 left with more than a second of nanoseconds

---
 ecl_time/src/lib/timestamp_base.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..3731765 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -172,6 +172,13 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
@@ -187,6 +194,13 @@ TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
-- 
2.43.0


From e6096fc15e953042a4a4197185971edb9385a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:16 +0000
Subject: [PATCH 024/119] fix: Snooze left a wake up time of exactly one second
 of nanoseconds, which is invalid, so it did not sleep

---
 ecl_time/src/lib/snooze_pos.cpp | 2 +-
 ecl_time/src/lib/snooze_win.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..fbf2587 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
diff --git a/ecl_time/src/lib/snooze_win.cpp b/ecl_time/src/lib/snooze_win.cpp
index 63a9f56..37d7581 100644
--- a/ecl_time/src/lib/snooze_win.cpp
+++ b/ecl_time/src/lib/snooze_win.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
-- 
2.43.0


From dbe8c8260e12c00d9caa665ac1e5f837dfcbd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:16 +0000
Subject: [PATCH 025/119] fix: MicroSleep and NanoSleep kept the seconds of an
 earlier sleep and did not split off those of the new one

---
 ecl_time/src/lib/sleep_pos.cpp | 6 ++++--
 ecl_time/src/lib/sleep_win.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..f39bb90 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000;
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000;
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
diff --git a/ecl_time/src/lib/sleep_win.cpp b/ecl_time/src/lib/sleep_win.cpp
index de72073..b8ab346 100644
--- a/ecl_time/src/lib/sleep_win.cpp
+++ b/ecl_time/src/lib/sleep_win.cpp
@@ -98,7 +98,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-    required.tv_nsec = 1000*micro_seconds;
+    required.tv_sec = micro_seconds/1000000;
+    required.tv_nsec = (micro_seconds%1000000)*1000;
     TimeError result = sleep(required);
 	ecl_assert_throw(result == TimeError(NoError), time::throwSleepException(LOC));
 }
@@ -118,7 +119,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-    required.tv_nsec = nanoseconds;
+    required.tv_sec = nanoseconds/1000000000;
+    required.tv_nsec = nanoseconds%1000000000;
     TimeError result = sleep(required);
 	ecl_assert_throw(result == TimeError(NoError), time::throwSleepException(LOC));
 }
-- 
2.43.0


From a1546714e4f05d2e15f06c3defbbfe767e97254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:16 +0000
Subject: [PATCH 026/119] fix: FrequencyMonitor mixed the monotonic and the
 realtime clock in its first interval

---
 ecl_time/src/lib/frequency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/frequency.cpp b/ecl_time/src/lib/frequency.cpp
index ab693e2..95c6b59 100644
--- a/ecl_time/src/lib/frequency.cpp
+++ b/ecl_time/src/lib/frequency.cpp
@@ -23,7 +23,11 @@ FrequencyMonitor::FrequencyMonitor(
 )
 : current_diagnostics()
 , incoming_counter(0)
+#if defined(ECL_HAS_RT_TIMERS)
+, last_anyalsed((use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp())
+#else
 , last_anyalsed()
+#endif
 , minimum_interval(100000.0) // something ridiculously large so the next interval will fall underneath it
 , maximum_interval(0.0)
 , period(window_period)
@@ -56,7 +60,7 @@ void FrequencyMonitor::update() {
 
 const FrequencyDiagnostics& FrequencyMonitor::analyse() {
 #if defined(ECL_HAS_RT_TIMERS)
-  ecl::TimeStamp now = ecl::TimeStamp::realtime_now();
+  ecl::TimeStamp now = (use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp();
 #else
   ecl::TimeStamp now = ecl::TimeStamp();
 #endif
-- 
2.43.0


From ca51c0dd95e551ea24a17743171989d6bd53d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 027/119] fix: the gaussian generator divided by zero when the
 source gave the centre of the circle

---
 ecl_time/include/ecl/time/random_number_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index 37c2ed4..af41ab6 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -75,7 +75,7 @@ public:
           x1 = 2.0 * uniform() - 1.0;
           x2 = 2.0 * uniform() - 1.0;
           w = x1 * x1 + x2 * x2;
-      } while ( w >= 1.0 );
+      } while ( w >= 1.0 || w == 0.0 );
 
       w = std::sqrt( (-2.0 * std::log( w ) ) / w );
       y1 = x1 * w;
-- 
2.43.0


From 4ce838707e855cb1997278eb4aa6d4c040f01fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 028/119] fix: bytes beyond the fourth were shifted in an int
 and lost (or corrupted the others) when converting to a long

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 54cefbf..a2cab18 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -92,7 +92,7 @@ public:
     typename ecl::Unsigned<Integral>::type unsigned_value = 0;
     for (unsigned int i = 0; i < byte_array.size(); ++i)
     {
-      unsigned_value |= static_cast<unsigned char>(byte_array[i]) << 8 * i;
+      unsigned_value |= static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<unsigned char>(byte_array[i])) << 8 * i;
     }
     if (ecl::is_signed<Integral>::value)
     {
-- 
2.43.0


From 4dba8cababa29f973fbcff31fe8aeb68b2f05b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 029/119] fix: a hex string that ends within a byte was
 accepted and the byte dropped

---
 ecl_converters/include/ecl/converters/to_byte_array.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 3cc8c40..dbb9adb 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -385,6 +385,12 @@ public:
       }
       ++input;
     }
+    if (state != waiting_zero)
+    {
+      ecl_debug_throw(StandardException(LOC,ConversionError));
+      error_handler = ConversionError;
+      bytes.clear();
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From 08eb4f7a4f5d576edfe34bea2a311b7757de5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 030/119] fix: negating the smallest integer overflowed when
 converting it to a char string

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..4f80cab 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -146,7 +146,7 @@ char* convertSignedIntegral(const Number &number, char* buffer_begin, char* buff
     if ( number >= 0 ) {
         s = convertUnsignedIntegral(static_cast<UnsignedNumber>(number),buffer_begin,buffer_end);
     } else {
-        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(-1*number),buffer_begin+1,buffer_end);
+        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(0 - static_cast<UnsignedNumber>(number)),buffer_begin+1,buffer_end);
         if (s == NULL) {
           return NULL;
         }
-- 
2.43.0


From 8580a034e9c6b8bbbafdf85a70f6d47a83fa2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 031/119] fix: negative chars were converted to garbage char
 strings

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 4f80cab..b56b279 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -211,7 +211,7 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const char &input) {
-            return converters::convertUnsignedIntegral(input,this->buffer_begin,this->buffer_end);
+            return converters::convertSignedIntegral(input,this->buffer_begin,this->buffer_end);
         }
 };
 /*****************************************************************************
-- 
2.43.0


From e02633afc86819168cd1975b53bbdec38d6e25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 032/119] fix: the smallest integer could not be converted to a
 string

---
 ecl_converters/include/ecl/converters/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/string.hpp b/ecl_converters/include/ecl/converters/string.hpp
index eb9d79b..a087c27 100644
--- a/ecl_converters/include/ecl/converters/string.hpp
+++ b/ecl_converters/include/ecl/converters/string.hpp
@@ -73,14 +73,14 @@ public:
 			char_string = buffer + 30;
 		#endif
 		*char_string = '\0';
-		int remaining = input;
+		unsigned int remaining = static_cast<unsigned int>(input);
 		unsigned int lsd;
 		/*********************
 		** Fix sign
 		**********************/
-		if (remaining < 0 ) {
+		if (input < 0 ) {
 			negative = true;
-			remaining *= -1;
+			remaining = 0 - remaining;
 		}
 		do
 		{
-- 
2.43.0


From 318e2529e6b98b9ca122283699ad435be4f29df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 033/119] fix: converting a bool to a char string overran
 buffers that are too small for it

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index b56b279..db33fb8 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -832,9 +832,10 @@ class Converter<char*,bool> : public virtual converters::CharStringBuffer {
         /**
          * Converts a bool to a char string held in the converter's buffer.
          * @param input : input value to be converted.
-         * @returns char* : output text string.
+         * @returns char* : output text string (NULL if it does not fit the buffer).
          **/
         char* operator ()(const bool &input){
+            if ( buffer_end - buffer_begin < (input ? 4 : 5) ) { return NULL; }
             *buffer_begin = '\0';
             input ? strcat(buffer_begin,"true") : strcat (buffer_begin,"false");
             return buffer_begin;
-- 
2.43.0


From 350d42bf8072666eb066081de4273fff7cc5da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 034/119] fix: temporarily formatted integers took the
 alignment of an earlier temporary format (or an uninitialised one)

---
 ecl_formatters/include/ecl/formatters/number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..0d87e95 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -330,6 +330,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
     width_ = &tmp_width;
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
+    *alignment_ = prm_alignment;
     base(b);
     width(w);
     value_ = n;
-- 
2.43.0


From a9082bd1c84133c19316e625774372a8bbb47160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 035/119] fix: temporarily formatting a float changed the
 permanent alignment

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index ace8dbe..fe9fade 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -319,15 +319,15 @@ FormatFloat<Number>& FormatFloat<Number>::operator()(const Number n)
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
+    alignment_ = &tmp_alignment;
+    *alignment_ = prm_alignment;
+
     width_ = &tmp_width;
     width(w);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(prm_alignment);
-
     base_ = &tmp_base;
     base(prm_base);
 
@@ -339,15 +339,14 @@ FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned i
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
+    alignment_ = &tmp_alignment;
     width_ = &tmp_width;
     width(w);
+    align(a);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(a);
-
     base_ = &tmp_base;
     base(b);
 
-- 
2.43.0


From 1f0bad1d7ff899be43b55291c024a64a869b4a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 036/119] fix: formatted floats of more than 29 characters were
 cut off

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index fe9fade..5f7daa8 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -377,7 +377,7 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[3] = '0';
         format_specifier[4] = 'f';
     }
-    static const int buffer_size = 30;
+    static const int buffer_size = 340; // sign, 309 digits, point and 20 decimals of the largest double
     static char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
-- 
2.43.0


From 284bc7139d21280b5b00fedff2f9c76d8cf8a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 037/119] fix: copies of number formatters used (and changed)
 the settings of the original, even after its end

---
 .../include/ecl/formatters/floats.hpp         | 25 +++++++++++++++++--
 .../include/ecl/formatters/number.hpp         | 18 +++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 5f7daa8..5fd0ce2 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -72,15 +72,36 @@ public:
 	 **/
 	FormatFloat(const int w = -1, const unsigned int p = 4, const ecl::Alignment a = NoAlign, const ecl::FloatBase b = Fixed) :
 		prm_width(w),
+		tmp_width(w),
 		prm_precision(p),
+		tmp_precision(p),
 		prm_alignment(a),
+		tmp_alignment(a),
 		prm_base(b),
+		tmp_base(b),
 		width_(&prm_width),
 		precision_(&prm_precision),
 		alignment_(&prm_alignment),
 		base_(&prm_base),
-		ready_to_format(false) {}
-
+		ready_to_format(false),
+		value_() {}
+
+	FormatFloat(const FormatFloat<Number> &other) { *this = other; }
+	FormatFloat<Number>& operator=(const FormatFloat<Number> &other) {
+		prm_width = other.prm_width; tmp_width = other.tmp_width;
+		prm_precision = other.prm_precision; tmp_precision = other.tmp_precision;
+		prm_alignment = other.prm_alignment; tmp_alignment = other.tmp_alignment;
+		prm_base = other.prm_base; tmp_base = other.tmp_base;
+		// point to our own parameters, not to those of the other
+		bool temporary = ( other.width_ == &other.tmp_width );
+		width_ = temporary ? &tmp_width : &prm_width;
+		precision_ = temporary ? &tmp_precision : &prm_precision;
+		alignment_ = temporary ? &tmp_alignment : &prm_alignment;
+		base_ = temporary ? &tmp_base : &prm_base;
+		ready_to_format = other.ready_to_format;
+		value_ = other.value_;
+		return *this;
+	}
 	virtual ~FormatFloat() {}
 
 	/******************************************
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 0d87e95..3085505 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -65,8 +65,22 @@ class FormatNumber {
          * @param a : the textual alignment (default - no alignment constraints)
          * @param b : the base format for the integral representation (default - decimal)
          **/
-        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
-
+        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),tmp_width(w),prm_alignment(a),tmp_alignment(a),prm_base(b),tmp_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false),value_() {}
+
+        FormatNumber(const FormatNumber<Number> &other) { *this = other; }
+        FormatNumber<Number>& operator=(const FormatNumber<Number> &other) {
+            prm_width = other.prm_width; tmp_width = other.tmp_width;
+            prm_alignment = other.prm_alignment; tmp_alignment = other.tmp_alignment;
+            prm_base = other.prm_base; tmp_base = other.tmp_base;
+            // point to our own parameters, not to those of the other
+            bool temporary = ( other.width_ == &other.tmp_width );
+            width_ = temporary ? &tmp_width : &prm_width;
+            alignment_ = temporary ? &tmp_alignment : &prm_alignment;
+            base_ = temporary ? &tmp_base : &prm_base;
+            ready_to_format = other.ready_to_format;
+            value_ = other.value_;
+            return *this;
+        }
         virtual ~FormatNumber() {}
 
         /******************************************
-- 
2.43.0


From 03850c46cbeaa0e635a37650d5936655c6c7eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 038/119] fix: temporarily formatting a string changed its
 permanent format, and a new string formatter was not known to have no data

---
 .../include/ecl/formatters/strings.hpp          | 17 ++++++++++-------
 ecl_formatters/src/lib/strings.cpp              |  9 ++++++---
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index c4832c4..0bd6597 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),tmp_width_(w),alignment_(a),tmp_alignment_(a),temporary_(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
@@ -129,8 +129,9 @@ class ecl_formatters_PUBLIC Format<std::string> {
         /******************************************
         ** Parameters
         *******************************************/
-        int width_;
-        Alignment alignment_;
+        int width_, tmp_width_;
+        Alignment alignment_, tmp_alignment_;
+        bool temporary_; // format the next string with the temporary width and alignment
         bool ready_to_format;
         std::string s;
 
@@ -174,17 +175,18 @@ template <typename OutputStream>
 void Format<std::string>::format(OutputStream &ostream) const
 {
     int size = s.size();
+    int width = temporary_ ? tmp_width_ : width_;
 
-    prePad(width_ - (size),ostream); // previously had (size+2) here...why?
+    prePad(width - (size),ostream); // previously had (size+2) here...why?
     ostream << s;
-    postPad(width_ - (size),ostream);
+    postPad(width - (size),ostream);
 }
 
 template <typename OutputStream>
 void Format<std::string>::prePad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { break; }
@@ -197,7 +199,7 @@ template <typename OutputStream>
 void Format<std::string>::postPad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { pad(n,ostream); break; }
@@ -233,6 +235,7 @@ OutputStream& operator << (OutputStream &ostream, Format<std::string>& formatter
     if ( ready ) {
         formatter.format(ostream);
         formatter.ready_to_format = false;
+        formatter.temporary_ = false;
     }
 
     return ostream;
diff --git a/ecl_formatters/src/lib/strings.cpp b/ecl_formatters/src/lib/strings.cpp
index fe0a763..ff26d1e 100644
--- a/ecl_formatters/src/lib/strings.cpp
+++ b/ecl_formatters/src/lib/strings.cpp
@@ -47,15 +47,18 @@ Format<std::string>& Format<std::string>::operator()(const std::string &input_st
 *****************************************************************************/
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w)
 {
-    width(w);
+    tmp_width_ = w;
+    tmp_alignment_ = alignment_;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
 }
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w, Alignment a)
 {
-    width(w);
-    align(a);
+    tmp_width_ = w;
+    tmp_alignment_ = a;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
-- 
2.43.0


From d0ce9b1238141eb1e5f0d2bdd23cd910a39f17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 039/119] fix: the precision of a float container formatter
 could not be read (did not compile)

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 5fd0ce2..101e55e 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -151,14 +151,14 @@ public:
 	 * @brief Returns the current precision setting.
 	 * @return int : the precision value.
 	 */
-	int precision() { return *precision_; }
+	int precision() const { return *precision_; }
 
 	/**
 	 * @brief Returns the current precision setting.
 	 *
 	 * @return int : the width value (-1 for no constraint).
 	 */
-	int width() { return *width_; }
+	int width() const { return *width_; }
 
 	/******************************************
 	 * Set Format Combinations
-- 
2.43.0


From b5ec1dddd113ffafc16d6f22eb6686287be88bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 040/119] fix: the general PushAndPop formatter did not compile

---
 .../include/ecl/containers/push_and_pop/formatters.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp b/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
index 0796050..3d1a7fb 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
@@ -74,7 +74,7 @@ public:
    * @param array : the array to be formatted.
    * @return PushAndPop<Type,N> : just returns the input array.
    */
-  ecl::PushAndPop<Type,N>& operator()(const ecl::PushAndPop<Type,N> &container) {
+  const ecl::PushAndPop<Type,N>& operator()(const ecl::PushAndPop<Type,N> &container) {
     return container;
   }
 };
-- 
2.43.0


From 9e192295c82b2de6e2f2ce0a73e122d55b41f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 041/119] fix: copies of a float container formatter used the
 width of the original, even after its end

---
 .../include/ecl/containers/common/formatters.hpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 9f07252..113b5e9 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -81,7 +81,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision(-1),
             tmp_width(-1),
             prm_width(w),
-            width_ptr(&prm_width),
+            temporary_width(false),
             format(w,p,ecl::RightAlign,ecl::Fixed),
             container(NULL),
             ready_to_format(false)
@@ -154,7 +154,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision = format.precision();
             format.precision(p);
             tmp_width = w;
-            width_ptr = &tmp_width;
+            temporary_width = true;
             return *this;
         } //temporary
 
@@ -175,7 +175,7 @@ class ECL_LOCAL FloatContainerFormatter {
 
         int old_precision;
         int tmp_width, prm_width;
-        int* width_ptr;
+        bool temporary_width;
         Format< value_type > format;
         const Container *container;
         bool ready_to_format;
@@ -220,7 +220,8 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
-    if ( *(formatter.width_ptr) == -1 ) {
+    const int width = formatter.temporary_width ? formatter.tmp_width : formatter.prm_width;
+    if ( width == -1 ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
@@ -240,7 +241,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         **********************/
         formatter.format.width(formatter.digits(min_coeff,max_coeff));
     } else {
-        formatter.format.width(*(formatter.width_ptr));
+        formatter.format.width(width);
     }
 
     /*********************
@@ -261,7 +262,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         formatter.old_precision = -1;
 
     }
-    formatter.width_ptr = &(formatter.prm_width);
+    formatter.temporary_width = false;
     formatter.ready_to_format = false;
 
     ostream.flush();
-- 
2.43.0


From 3f1e0ae7f73853ab8ca74ec79b9118902dcacf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 042/119] fix: the float container formatter read the first
 coefficient of an empty container

---
 ecl_containers/include/ecl/containers/common/formatters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 113b5e9..6a0d930 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -221,7 +221,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "in the same stream sequence, so this is not permitted here.") );
 
     const int width = formatter.temporary_width ? formatter.tmp_width : formatter.prm_width;
-    if ( width == -1 ) {
+    if ( ( width == -1 ) && ( formatter.container->size() > 0 ) ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
-- 
2.43.0


From c65b48696a2aed43ca7f6d28176fdf8f46d02f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 043/119] fix: a temporary format that was never streamed made
 its precision the permanent one of a float container formatter

---
 ecl_containers/include/ecl/containers/common/formatters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 6a0d930..b615c49 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -151,7 +151,7 @@ class ECL_LOCAL FloatContainerFormatter {
         FloatContainerFormatter& operator()(Container &c, const unsigned int p, const int w) {
             container = &c;
             ready_to_format = true;
-            old_precision = format.precision();
+            if ( old_precision == -1 ) { old_precision = format.precision(); }
             format.precision(p);
             tmp_width = w;
             temporary_width = true;
-- 
2.43.0


From fe8385718c7bc6bdfb41dd095641fa209bbbc164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 044/119] fix: text streams refused the largest (and smallest)
 integers of each type

---
 .../ecl/streams/text_streams/input_text_stream.hpp       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 932c9e2..3f66053 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -572,10 +572,9 @@ template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
     static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
-    static const Number ceiling = ecl::numeric_limits<Number>::maximum/10;
     char c = ' ';
     Number sign_multiplier = 1;
-    Number number;
+    unsigned long long number, limit;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
@@ -630,9 +629,11 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     	return false;
 	}
     number = 0;
+    limit = std::numeric_limits<Number>::max(); // largest magnitude
+    if ( sign_multiplier != 1 ) { ++limit; }
     for ( int k = 0; k < j; ++k )
     {
-        if ( number < ceiling )
+        if ( number <= ( limit - (digits[k] - '0') )/10 )
         {
             number = 10*number + (digits[k] - '0');
         } else {
@@ -640,7 +641,7 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
             return false;
         }
     }
-    i = sign_multiplier*number;
+    i = static_cast<Number>( ( sign_multiplier == 1 ) ? number : -number );
 
     return true;
 }
-- 
2.43.0


From 10706b5cdf00a6f0f38b6fa62e656509c7166cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 045/119] fix: text streams did not read a zero followed by
 anything but a blank or newline

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 3f66053..d8c3e8d 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -601,6 +601,9 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
         	return false;
 		} else if ( c == 'x' ) {
             return parseHexInteger(i);
+        } else if ( ( c < '0' ) || ( c > '9' ) ) { // also a single zero
+        	i = 0;
+        	return true;
         } else {
         	// its a regular integer, just continue
         }
-- 
2.43.0


From 577cb4b45f6b0b21d794eae1306384ad2c30c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 046/119] fix: hex numbers were read into a short, so most were
 refused or garbled, and the target was cleared on failure

---
 .../ecl/streams/text_streams/input_text_stream.hpp       | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index d8c3e8d..70f61cd 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -521,9 +521,8 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
     static int digits[25];
-    static const short ceiling = numeric_limits<short>::maximum/10;
+    static const unsigned long long limit = std::numeric_limits<Number>::max();
 
-    i = 0;
     int j = 0;
     while ( j < 25 ) {
     	long n = this->io_device.read(c);
@@ -549,16 +548,16 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
     	return false;
 	}
 
-    short number = 0;
+    unsigned long long number = 0;
     for ( int k = 0; k < j; ++k ) {
-        if ( number < ceiling ) {
+        if ( number <= ( limit - digits[k] )/16 ) {
             number = 16*number + (digits[k]);
         } else {
         	this->error = OutOfRangeError;
             return false;
         }
     }
-    i = number;
+    i = static_cast<Number>(number);
     return true;
 }
 
-- 
2.43.0


From 414cebe20c18724410cb2a0404582da69b957989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 047/119] fix: text streams dropped the last digit of a float
 at the end of the stream (and refused one of a single digit)

---
 .../ecl/streams/text_streams/input_text_stream.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 70f61cd..1f290f7 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -673,13 +673,12 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     *******************************************/
     while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
         digits[integral_length] = c;
+        integral_length++;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError; return false;
 		} else if ( n == 0 ) {
 			break;
-		} else { // n > 1
-			integral_length++;
         }
     }
     for ( int k = 0; k < integral_length; ++k ) {
@@ -688,19 +687,20 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
 
     if ( c == '.' ) {
         float frac_multiplier = 1;
-        if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
+        long n = this->io_device.read(c);
+        if ( n < 0 ) { this->error = ReadError; return false; }
+        if ( n == 0 ) { c = ' '; } // the number ends with its point
         /******************************************
         ** Decimal part
         *******************************************/
         while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
             digits[decimal_length] = c;
+            decimal_length++;
             long n = this->io_device.read(c);
     		if ( n < 0 ) {
     			this->error = ReadError; return false;
     		} else if ( n == 0 ) {
     			break;
-    		} else { // n > 1
-                decimal_length++;
             }
         }
         for ( int k = 0; k < decimal_length; ++k ) {
-- 
2.43.0


From 33bc253e7313ba434861a349261266ae062d95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 048/119] fix: text streams read doubles with the precision of
 a float only

---
 .../ecl/streams/text_streams/input_text_stream.hpp       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 1f290f7..cd7637c 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -657,7 +657,7 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     int integral_length = 0;
     int decimal_length = 0;
     Number sign_multiplier = 1;
-    Number number;
+    double number;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
@@ -686,7 +686,7 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     }
 
     if ( c == '.' ) {
-        float frac_multiplier = 1;
+        double fraction = 0, frac_divisor = 1;
         long n = this->io_device.read(c);
         if ( n < 0 ) { this->error = ReadError; return false; }
         if ( n == 0 ) { c = ' '; } // the number ends with its point
@@ -704,9 +704,10 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
             }
         }
         for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier *= 0.1f;
-            number = number + frac_multiplier*(digits[k] - '0');
+            fraction = 10*fraction + (digits[k] - '0');
+            frac_divisor *= 10;
         }
+        number += fraction/frac_divisor;
     }
 
     if ( (integral_length+decimal_length) == 0 ) {
-- 
2.43.0


From a1657a62bc86795b52422849ce29e76894951532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 049/119] fix: reading numbers from two text streams at a time
 mixed up their digits

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index cd7637c..72fbb50 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -520,7 +520,7 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    static int digits[25];
+    int digits[25];
     static const unsigned long long limit = std::numeric_limits<Number>::max();
 
     int j = 0;
@@ -570,7 +570,7 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
+    char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
     Number sign_multiplier = 1;
     unsigned long long number, limit;
@@ -652,7 +652,7 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     static const int bufferSize = 25;
-    static char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
+    char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
     int integral_length = 0;
     int decimal_length = 0;
-- 
2.43.0


From 67a47961faecbe8307fd15a29e33b29c53fd9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 050/119] fix: a string device wrote past its buffer once it
 had grown or been cleared

---
 ecl_devices/src/lib/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..0281ca4 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -49,7 +49,8 @@ void String::grow(int no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    buffer_length = size()+no_bytes+1;
+    new_buffer = new char[buffer_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
@@ -109,7 +110,7 @@ void String::clear()
 {
     delete [] buffer;
     buffer = new char[1];
-    buffer_length = 0;
+    buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From 2d147e179316aeb9abc3fb16e6177e3f326bfd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 051/119] fix: text streams cut off floats of more than 28
 characters

---
 .../include/ecl/streams/text_streams/output_text_stream.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 2b64faf..a598363 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -91,7 +91,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          * @endcode
          **/
         OutputTextStream() :
-        	toCharString(30) // character buffer size
+        	toCharString(340) // character buffer size
 		{
             ecl_compile_time_concept_check(OutputCharDeviceConcept<Device>);
 		};
-- 
2.43.0


From 09c41f4b684c89d6acc2955e0e65875536297eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 052/119] fix: a text stream whose device failed to write did
 not report it (fail())

---
 .../include/ecl/streams/text_streams/output_text_stream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index a598363..9d94425 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -158,7 +158,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char& c ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-	this->io_device.write(c);
+	this->error = ( this->io_device.write(c) < 0 ) ? WriteError : NoError;
     return *this;
 }
 /**
@@ -172,7 +172,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const char *s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(s,strlen(s));
+    this->error = ( this->io_device.write(s,strlen(s)) < 0 ) ? WriteError : NoError;
     return *this;
 }
 
@@ -187,7 +187,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const cha
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const std::string &s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(&s[0],s.size());
+    this->error = ( this->io_device.write(&s[0],s.size()) < 0 ) ? WriteError : NoError;
     return *this;
 }
 /**
-- 
2.43.0


From b1cdfef5ef0c8cc189fa54659dc92e787cba05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 053/119] fix: a log stream opened later did not have its
 header and time stamp settings initialised

---
 ecl_streams/include/ecl/streams/log_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/log_stream.hpp b/ecl_streams/include/ecl/streams/log_stream.hpp
index b35a29b..e678425 100644
--- a/ecl_streams/include/ecl/streams/log_stream.hpp
+++ b/ecl_streams/include/ecl/streams/log_stream.hpp
@@ -115,7 +115,7 @@ public:
 	 * This must open the underlying shared file device manually
 	 * via device().open() as you would do if using a TextStream.
 	 */
-	LogStream() {};
+	LogStream() : write_header(true), write_stamp(true) {};
 	/**
 	 * @brief Convenience constructor for logstreams.
 	 *
-- 
2.43.0


From 03bf8caaca62c0b850393e7c7f598c334c1b0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 054/119] fix: enabling a log mode again kept its old header

---
 ecl_streams/src/lib/log_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 4fd972a..3b06243 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -34,7 +34,7 @@ void LogStream::disableHeader() { write_header = false; }
 void LogStream::enableTimeStamp() { write_stamp = true; }
 void LogStream::disableTimeStamp() { write_stamp = false; }
 
-void LogStream::enableMode(int mode, std::string header) { modes.insert( std::make_pair(mode,header) ); }
+void LogStream::enableMode(int mode, std::string header) { modes[mode] = header; }
 void LogStream::disableMode(int mode) { modes.erase(mode); }
 
 bool LogStream::isEnabled() {
-- 
2.43.0


From c79ee0f4d10e84ba20b1ddf4df38d614e7402159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 055/119] fix: numbers of more than 25 digits were split in two
 by text streams

---
 .../text_streams/input_text_stream.hpp        | 87 +++++++++----------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 72fbb50..76746cf 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -520,11 +520,13 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    int digits[25];
+    int digit;
+    bool too_large = false;
+    unsigned long long number = 0;
     static const unsigned long long limit = std::numeric_limits<Number>::max();
 
     int j = 0;
-    while ( j < 25 ) {
+    while ( true ) {
     	long n = this->io_device.read(c);
     	if ( n < 0 ) {
         	this->error = ReadError;
@@ -533,14 +535,19 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 			break; // nothing more to read.
 		}
         if ( ( c >= '0' ) && ( c <= '9') ) {
-            digits[j] = c - '0';
+            digit = c - '0';
         } else if ( ( c >= 'a' ) && ( c <= 'f') ) {
-            digits[j] = 10 + c - 'a';
+            digit = 10 + c - 'a';
         } else if ( ( c >= 'A' ) && ( c <= 'F') ) {
-            digits[j] = 10 + c - 'A';
+            digit = 10 + c - 'A';
         } else {
             break; // No more valid characters to read.
         }
+        if ( number <= ( limit - digit )/16 ) {
+            number = 16*number + digit;
+        } else {
+            too_large = true;
+        }
         ++j;
     }
     if ( j == 0 ) {
@@ -548,14 +555,9 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
     	return false;
 	}
 
-    unsigned long long number = 0;
-    for ( int k = 0; k < j; ++k ) {
-        if ( number <= ( limit - digits[k] )/16 ) {
-            number = 16*number + (digits[k]);
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( too_large ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
     i = static_cast<Number>(number);
     return true;
@@ -570,10 +572,10 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
+    bool too_large = false;
     char c = ' ';
     Number sign_multiplier = 1;
-    unsigned long long number, limit;
+    unsigned long long number = 0, limit;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
@@ -613,10 +615,16 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     /*********************
     ** Parse reg. integer
     **********************/
+    limit = std::numeric_limits<Number>::max(); // largest magnitude
+    if ( sign_multiplier != 1 ) { ++limit; }
     int j = 0;
-    while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
-        digits[j] = c;
-        j++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        if ( number <= ( limit - (c - '0') )/10 ) {
+            number = 10*number + (c - '0');
+        } else {
+            too_large = true;
+        }
+        j = 1;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError;
@@ -630,18 +638,9 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     	this->error = ConversionError;
     	return false;
 	}
-    number = 0;
-    limit = std::numeric_limits<Number>::max(); // largest magnitude
-    if ( sign_multiplier != 1 ) { ++limit; }
-    for ( int k = 0; k < j; ++k )
-    {
-        if ( number <= ( limit - (digits[k] - '0') )/10 )
-        {
-            number = 10*number + (digits[k] - '0');
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( too_large ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
     i = static_cast<Number>( ( sign_multiplier == 1 ) ? number : -number );
 
@@ -651,8 +650,6 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
-    static const int bufferSize = 25;
-    char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
     int integral_length = 0;
     int decimal_length = 0;
@@ -671,9 +668,9 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     /******************************************
     ** Integral part
     *******************************************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
-        digits[integral_length] = c;
-        integral_length++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        number = 10*number + (c - '0');
+        integral_length = 1;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError; return false;
@@ -681,9 +678,6 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
 			break;
         }
     }
-    for ( int k = 0; k < integral_length; ++k ) {
-        number = 10*number + (digits[k] - '0');
-    }
 
     if ( c == '.' ) {
         double fraction = 0, frac_divisor = 1;
@@ -693,9 +687,12 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
         /******************************************
         ** Decimal part
         *******************************************/
-        while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
-            digits[decimal_length] = c;
-            decimal_length++;
+        while ( ( c >= '0' ) && ( c <= '9') ) {
+            if ( frac_divisor < 1e18 ) { // more do not make a difference
+                fraction = 10*fraction + (c - '0');
+                frac_divisor *= 10;
+            }
+            decimal_length = 1;
             long n = this->io_device.read(c);
     		if ( n < 0 ) {
     			this->error = ReadError; return false;
@@ -703,10 +700,6 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     			break;
             }
         }
-        for ( int k = 0; k < decimal_length; ++k ) {
-            fraction = 10*fraction + (digits[k] - '0');
-            frac_divisor *= 10;
-        }
         number += fraction/frac_divisor;
     }
 
@@ -715,6 +708,10 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     	return false;
 	}
 
+    if ( number > std::numeric_limits<Number>::max() ) {
+    	this->error = OutOfRangeError;
+    	return false;
+    }
     f = sign_multiplier*number;
 
     return true;
-- 
2.43.0


From 0c87650c8527a76babaea04b5dca94e28dbe33ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 056/119] fix: opening a file as New kept what was left of its
 old contents

---
 ecl_devices/src/lib/ofile_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c1e2265..c207bed 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -66,7 +66,7 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
+        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
                 ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
-- 
2.43.0


From dc7fcd7502a0a804b0a405e2cd224b3ebb9e1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 057/119] fix: opening an OFile that is open leaked the earlier
 file and kept its unwritten data back

---
 ecl_devices/src/lib/ofile_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c207bed..74a9cf9 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -63,6 +63,7 @@ OFile::~OFile() {
 *****************************************************************************/
 
 bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
+	if ( open() ) { close(); }
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-- 
2.43.0


From cc08b3c04dd9d298ce93f4b182b9f04179e1f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 058/119] fix: a file descriptor was leaked if no stream could
 be opened for it

---
 ecl_devices/src/lib/ofile_pos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 74a9cf9..3e274dc 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -89,6 +89,9 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         default : break;
     }
     if ( file == NULL ) {
+        int error_result = errno;
+        ::close(file_descriptor);
+        errno = error_result;
         ecl_throw(devices::open_exception(LOC,file_name));
         error_handler = devices::open_error();
         return false;
-- 
2.43.0


From 04b4f5988368b561b23e3319622e5c90dd2b7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:31 +0000
Subject: [PATCH 059/119] fix: a file that failed to close was closed a second
 time later on

---
 ecl_devices/src/lib/ofile_pos.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 3e274dc..f1466a9 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -103,12 +103,13 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 bool OFile::close() {
 	if ( open() ) {
 		// This flushes and closes the file descriptor.
-		if ( fclose(file) != 0 ) {
+		int result = fclose(file);
+		file = NULL; // it is closed, even if that failed
+		if ( result != 0 ) {
 			ecl_throw(devices::close_exception(LOC,name));
 			error_handler = devices::close_error();
 			return false;
 		}
-		file = NULL;
 	}
 	error_handler = NoError;
 	return true;
-- 
2.43.0


From 024873dac753bf7925c1efb4ab47fff64a51174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:31 +0000
Subject: [PATCH 060/119] fix: writing nothing to a file was reported as a
 failure

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp | 4 ++++
 ecl_devices/src/lib/ofile_pos.cpp             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index d24211e..bf0fa7b 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -313,6 +313,10 @@ long OFile::write(const ByteArray&byte_array) {
     	error_handler = OpenError;
     	return -1;
     }
+    if ( byte_array.size() == 0 ) {
+    	error_handler = NoError;
+    	return 0;
+    }
     size_t written = fwrite(&byte_array[0],byte_array.size(),1,file);
     if ( written == 0) {
     	ecl_debug_throw(ecl::StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index f1466a9..4bbb428 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -143,6 +143,10 @@ long OFile::write(const char* s, unsigned long n)
 		error_handler = OpenError;
     	return -1;
 	}
+	if ( n == 0 ) {
+		error_handler = NoError;
+		return 0;
+	}
 	size_t written = fwrite(s,n,1,file);
     if ( written <= 0 ) {
     	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
-- 
2.43.0


From 86dcb119dd306c64ba19b5c24147bd9efed93494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:31 +0000
Subject: [PATCH 061/119] fix: flushing a file that is not open flushed every
 other stream and reported success

---
 ecl_devices/src/lib/ofile_pos.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 4bbb428..def3086 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -162,6 +162,11 @@ bool OFile::flush() {
 	// This flushes userland buffers to the kernel buffers...not sure why,
 	// but you can still read the file in real time, so its good enough and
 	// thus better than a more expensive fsync here.
+	if ( !open() ) {
+		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
+		error_handler = OpenError;
+		return false;
+	}
 	int result = fflush(file);
 	if ( result != 0 ) {
 		ecl_debug_throw ( StandardException(LOC, UnknownError, std::string("Could not fflush ") + name + std::string(".")));
-- 
2.43.0


From 9478c8651596a3fc62f083822fb0a8e4f666d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:38 +0000
Subject: [PATCH 062/119] fix: a file that could not be found was reported as
 an unknown error (unlike its exception)

---
 ecl_devices/src/lib/detail/error_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/detail/error_handler.cpp b/ecl_devices/src/lib/detail/error_handler.cpp
index 8d0dd3a..756b2b1 100644
--- a/ecl_devices/src/lib/detail/error_handler.cpp
+++ b/ecl_devices/src/lib/detail/error_handler.cpp
@@ -34,6 +34,7 @@ namespace devices {
 ecl::Error open_error() {
 	int error_result = errno;
 	switch (error_result) {
+		case ( ENOENT ) : return ecl::Error(ecl::NotFoundError);
 		case ( EINVAL ) : return ecl::Error(ecl::InvalidArgError);
 		case ( EACCES ) : return ecl::Error(ecl::PermissionsError);
 		case ( EFBIG )  : case (EOVERFLOW)  :
-- 
2.43.0


From 59796b768f985ac7c7d1eda2b7e611b1e9719e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 063/119] fix: after a shared file failed to open, every other
 shared file hung (or waited for ever) on the manager's mutex

---
 ecl_devices/src/lib/shared_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a5c2e19..565f18a 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -90,6 +90,7 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
     		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
     	} ecl_catch ( StandardException &e ) {
     		shared_instance = NULL;
+    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
     }
@@ -107,6 +108,7 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
+		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
-- 
2.43.0


From daac5da0e1ed7671df1d8eb15620539e61d1582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 064/119] fix: a shared file that failed to write was deleted
 under its other users, one never opened crashed, and one opened again leaked
 its earlier file

---
 .../include/ecl/devices/shared_file.hpp       |  5 ++--
 ecl_devices/src/lib/shared_file.cpp           | 24 +++++++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 179c9a9..5915665 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -63,7 +63,7 @@ namespace devices {
  */
 class SharedFileCommon {
 public:
-    SharedFileCommon() : error_handler(NoError) {};
+    SharedFileCommon() : count(0), error_handler(NoError) {};
 	/**
 	 * @brief Automatically opens a file and initialises the count.
 	 *
@@ -127,7 +127,7 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() {};
+	SharedFile() : shared_instance(new devices::SharedFileCommon()) {};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
@@ -230,6 +230,7 @@ public:
 	const Error& error() const { return shared_instance->error_handler; }
 
 private:
+	void release();
 	devices::SharedFileCommon* shared_instance;
 	devices::CharBuffer buffer;
 };
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 565f18a..4890e9f 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -140,25 +140,39 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 	ecl_try {
 		open(name,mode);
 	} ecl_catch( StandardException &e ) {
+		release();
 		ecl_throw(StandardException(LOC,e));
 	}
 }
 
 SharedFile::~SharedFile() {
+	release();
+}
+
+/**
+ * Lets go of the current instance - if it is not (no longer) shared, it belongs
+ * to this object only.
+ */
+void SharedFile::release() {
 	ecl_try {
-	        if (shared_instance->error_handler.flag() == NoError) {
-	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
-	        } else {
-	            delete shared_instance;
-	        }
+		if ( shared_instance == NULL ) {
+			return;
+		}
+		if ( shared_instance->count > 0 ) {
+			devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
+		} else {
+			delete shared_instance;
+		}
 	} ecl_catch( StandardException &e ) {
 		// Never throw from a destructor!
 		// use some other mechanism!!!
 		// throw StandardException(LOC,e);
 	}
+	shared_instance = NULL;
 }
 
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	release();
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
-- 
2.43.0


From 0ff49cba99b827410eb1fd70f1aefef724760c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 065/119] fix: what was written to a shared file but not yet
 flushed was lost at its end

---
 ecl_devices/src/lib/shared_file.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 4890e9f..73b153b 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -154,10 +154,20 @@ SharedFile::~SharedFile() {
  * to this object only.
  */
 void SharedFile::release() {
-	ecl_try {
-		if ( shared_instance == NULL ) {
-			return;
+	if ( shared_instance == NULL ) {
+		return;
+	}
+	if ( shared_instance->count > 0 ) {
+		ecl_try {
+			if ( buffer.size() > 0 ) {
+				flush();
+			}
+		} ecl_catch( StandardException &e ) {
+			// not written, nothing more can be done about it here
 		}
+		buffer.clear();
+	}
+	ecl_try {
 		if ( shared_instance->count > 0 ) {
 			devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
 		} else {
-- 
2.43.0


From 5471c8dfb1c83ed7aa7de2f0e10688381ee8de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 066/119] fix: flushing a shared file with nothing to write was
 reported as a failure

---
 ecl_devices/src/lib/shared_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 73b153b..87b7955 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -234,7 +234,7 @@ bool SharedFile::flush() {
 	buffer.clear();
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
-	if ( written > 0 ) {
+	if ( written >= 0 ) {
 		return true;
 	} else {
 		return false;
-- 
2.43.0


From 962d9444d5fb0bfc5d7b114cfb5373bdb68a66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 067/119] fix: a socket client that never opened, failed to, or
 hung up closed someone else's file descriptor

---
 ecl_devices/src/lib/socket_client_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 14d0cd3..6a173f1 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -57,8 +57,10 @@ SocketClient::SocketClient(const std::string &host_name, const unsigned int &por
 }
 
 void SocketClient::close() {
-	 is_open = false;
-	 ::close(socket_fd); // should have error handling here
+	if ( is_open ) {
+		is_open = false;
+		::close(socket_fd); // should have error handling here
+	}
 }
 
 bool SocketClient::open( const std::string &host_name, const unsigned int& port_number ) {
-- 
2.43.0


From 869cf4da1c258f8e38a4fd42fba08ba0b7cfb6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 068/119] fix: closing a socket server did not end its
 connection, and one that never opened or was closed already closed someone
 else's file descriptor

---
 .../include/ecl/devices/socket_server_pos.hpp  |  4 ++--
 ecl_devices/src/lib/socket_server_pos.cpp      | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 4cddb84..2f3ccc6 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -62,7 +62,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketServer() : is_open(false) {}; /**< @brief Default constructor, use with open(). **/
+	SocketServer() : socket_fd(-1), client_socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
@@ -107,7 +107,7 @@ public:
 	 * from 20 seconds to 4 minutes to me.  The official standard says
 	 * that it should be 4 minutes.
 	 */
-	void close() { is_open = false; ::close(socket_fd); }
+	void close();
 
 	bool open() const { return is_open; }
 
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 8271b69..33fd257 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -35,6 +35,8 @@ namespace ecl {
 
 SocketServer::SocketServer(const unsigned int &port_number) :
 		port(port_number),
+		socket_fd(-1),
+		client_socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -45,6 +47,18 @@ SocketServer::SocketServer(const unsigned int &port_number) :
     }
 }
 
+void SocketServer::close() {
+	if ( client_socket_fd != -1 ) {
+		::close(client_socket_fd);
+		client_socket_fd = -1;
+	}
+	if ( socket_fd != -1 ) {
+		::close(socket_fd);
+		socket_fd = -1;
+	}
+	is_open = false;
+}
+
 bool SocketServer::open( const unsigned int& port_number ) {
 
     if ( this->open() ) { this->close(); }
@@ -107,6 +121,10 @@ int SocketServer::listen() {
     struct sockaddr_in client;
     int client_length = sizeof(client);
 
+	if ( client_socket_fd != -1 ) { // only one connection at a time
+		::close(client_socket_fd);
+		client_socket_fd = -1;
+	}
     client_socket_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
     if (client_socket_fd < 0) {
     	ecl_throw(devices::accept_exception(LOC));
-- 
2.43.0


From e9d57c7eae2a21ba25e1613630a544f7f425c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 069/119] fix: a socket server that could not bind its port
 considered itself open

---
 ecl_devices/src/lib/socket_server_pos.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 33fd257..742d0ba 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -98,7 +98,9 @@ bool SocketServer::open( const unsigned int& port_number ) {
      ************************************************************************/
     int bind_result = bind(socket_fd, (struct sockaddr *) &server, sizeof(server));
     if ( bind_result == - 1 ) {
-    	is_open = true;
+    	int error_result = errno;
+    	close();
+    	errno = error_result;
     	ecl_throw(devices::bind_exception(LOC));
     	error_handler = devices::bind_error();
     	return false;
-- 
2.43.0


From a90469eca275f2753bb87a935400bf3b33047cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 070/119] fix: half of the number of bytes remaining on a
 socket was not initialised

---
 ecl_devices/src/lib/socket_client_pos.cpp | 3 ++-
 ecl_devices/src/lib/socket_server_pos.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 6a173f1..20dc54e 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -193,11 +193,12 @@ long SocketClient::remaining() {
 
     if ( !open() ) { return ConnectionDisconnected; }
 
-    unsigned long bytes;
+    int bytes;
     int result = ioctl(socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
     	error_handler =  devices::ioctl_error();
+    	return ConnectionProblem;
     }
     error_handler = NoError;
     return bytes;
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 742d0ba..b06400c 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -175,7 +175,7 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
-    unsigned long bytes;
+    int bytes;
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw(devices::ioctl_exception(LOC));
-- 
2.43.0


From 58776a8a24843d781b91205e4c848f97cf1bbf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 071/119] fix: a socket server without a connection used an
 uninitialised (or closed) file descriptor

---
 ecl_devices/src/lib/socket_server_pos.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index b06400c..af6b049 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -144,7 +144,7 @@ int SocketServer::listen() {
 
 long SocketServer::read(char *s, const unsigned long &n) {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
@@ -164,6 +164,7 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 long SocketServer::peek(char *s, const unsigned long &n) {
 
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
@@ -175,6 +176,7 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
     int bytes;
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
@@ -192,6 +194,7 @@ long SocketServer::remaining() {
 *****************************************************************************/
 
 long SocketServer::write(const char *s, unsigned long n) {
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
     #ifdef MSG_NOSIGNAL
         int bytes_written = ::send(client_socket_fd,s,n,0|MSG_NOSIGNAL);
     #else
-- 
2.43.0


From b7c5a5403982dfaf1b953a2b966e4fb937881415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 072/119] fix: timeouts and missing permissions of sockets were
 reported as unknown errors

---
 .../include/ecl/devices/detail/socket_error_handler_pos.hpp | 5 ++---
 ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp | 6 +++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..571df93 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,7 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+              case ( EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +148,6 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -188,7 +187,7 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES ) : case ( EPERM ) : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..7061718 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,7 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,7 +119,6 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
@@ -179,7 +178,8 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES )      :
+        case ( EPERM )       : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-- 
2.43.0


From 64601b8c8083d9970db6d4beddad2dbe41c100d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 073/119] fix: reading nothing from a socket closed it

---
 ecl_devices/src/lib/socket_client_pos.cpp | 2 +-
 ecl_devices/src/lib/socket_server_pos.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 20dc54e..bfb7f14 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -156,7 +156,7 @@ long SocketClient::read(char *s, const unsigned long &n) {
     /*********************
 	** Error Handling
 	**********************/
-    if ( bytes_read == 0 ) {
+    if ( ( bytes_read == 0 ) && ( n > 0 ) ) {
         // Server has dropped
         close();
         return ConnectionHungUp;
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index af6b049..c2d67fe 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -153,7 +153,7 @@ long SocketServer::read(char *s, const unsigned long &n) {
     	return ConnectionProblem;
     }
 
-    if ( bytes_read == 0 ) {
+    if ( ( bytes_read == 0 ) && ( n > 0 ) ) {
         // Server has dropped
         close();
         return ConnectionHungUp;
-- 
2.43.0


From dc997a6f7c2052e0d104b00ec9c482929f28c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 074/119] fix: a client that dropped its connection with data
 unread was reported to the server as an unknown error, not as having hung up

---
 ecl_devices/src/lib/socket_server_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index c2d67fe..e3f45df 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -148,6 +148,10 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
+    	if ( errno == ECONNRESET ) { // the client has dropped
+    		close();
+    		return ConnectionHungUp;
+    	}
     	ecl_debug_throw(devices::receive_exception(LOC));
     	error_handler = devices::receive_error();
     	return ConnectionProblem;
-- 
2.43.0


From e6957d02e980c6ccdf57caa8dc2b8bdc89732fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 075/119] fix: a socket client kept an earlier error after
 writing successfully

---
 ecl_devices/src/lib/socket_client_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index bfb7f14..5a2b42c 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -235,6 +235,7 @@ long SocketClient::write(const char *s, unsigned long n) {
             }
         }
     }
+    error_handler = NoError;
     return bytes_written;
 }
 
-- 
2.43.0


From 3613a0c665c11f0260dff8ba502678c122faf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 076/119] fix: the console could not read the character 255, it
 was taken for the end of the input

---
 ecl_devices/src/lib/console.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b3e1ad6..2cae7ba 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -93,12 +93,13 @@ long IConsole::read(char &c)
 {
 	// fgets is a problem, it doesn't read the newline with the character,
 	// which means the next read from stdin will catch that newline first.
-    c = static_cast<char>(fgetc(stdin));
-    if ( c == EOF ) {
-    	ecl_assert_throw( c != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
+    int result = fgetc(stdin);
+    if ( result == EOF ) {
+    	ecl_assert_throw( result != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // fallover if not in debug mode.
     } else {
 //    	while ( fgetc(stdin) != '\n' ) {}
+    	c = static_cast<char>(result);
     	return 1;
     }
 }
-- 
2.43.0


From 7d283b1c16b125c859d7e5260bf0fced4e9394b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 077/119] fix: what was written to a console after a null
 character was lost

---
 ecl_devices/include/ecl/devices/detail/character_buffer.hpp | 1 +
 ecl_devices/src/lib/console.cpp                             | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/character_buffer.hpp b/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
index 7891fcf..8a1aa7f 100644
--- a/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
+++ b/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
@@ -93,6 +93,7 @@ public:
 	virtual ~CharStringBuffer() {}
 
 	unsigned int remaining() { return ( buffer_size - fill_point_marker); }
+	unsigned int size() const { return fill_point_marker; }
 	bool full() const;
 	long append(const char &c);
 	long append(const char* s, unsigned long n);
diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index 2cae7ba..3167a63 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -47,7 +47,7 @@ long OConsole::write(const char* s, unsigned long n)
 }
 
 void OConsole::flush() {
-    fputs(buffer.c_str(),stdout);
+    fwrite(buffer.c_str(),1,buffer.size(),stdout);
     buffer.clear();
 	int result = fflush(stdout);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
@@ -79,7 +79,7 @@ long EConsole::write(const char* s, unsigned long n)
 }
 
 void EConsole::flush() {
-    fputs(buffer.c_str(),stderr);
+    fwrite(buffer.c_str(),1,buffer.size(),stderr);
     buffer.clear();
 	int result = fflush(stderr);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
-- 
2.43.0


From edcf096e0a2cfeb63cc235ce4f9df3cb54fb0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:09 +0000
Subject: [PATCH 078/119] fix: logging to a mode that is not enabled enabled it

---
 ecl_streams/src/lib/log_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 3b06243..143b594 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -59,7 +59,8 @@ LogStream& LogStream::log(int mode) {
         (*this) << timestamp.stamp() << " ";
     }
     if ( write_header ) {
-        (*this) << "[" << modes[mode] << "] ";
+        std::map<int,string>::const_iterator iter = modes.find(mode); // do not enable it!
+        (*this) << "[" << ( iter == modes.end() ? string() : iter->second ) << "] ";
     }
     if ( write_stamp || write_header ) {
     	(*this) << ": ";
-- 
2.43.0


From 10e17589b5361c49d70c231ba2e766bafa116cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 079/119] fix: the error console did not report that what it
 wrote was lost

---
 ecl_devices/src/lib/console.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index 3167a63..921ab77 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -47,9 +47,11 @@ long OConsole::write(const char* s, unsigned long n)
 }
 
 void OConsole::flush() {
-    fwrite(buffer.c_str(),1,buffer.size(),stdout);
+    int result = ( fwrite(buffer.c_str(),1,buffer.size(),stdout) == buffer.size() ) ? 0 : EOF;
     buffer.clear();
-	int result = fflush(stdout);
+	if ( fflush(stdout) != 0 ) {
+		result = EOF;
+	}
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
 }
 
@@ -79,9 +81,11 @@ long EConsole::write(const char* s, unsigned long n)
 }
 
 void EConsole::flush() {
-    fwrite(buffer.c_str(),1,buffer.size(),stderr);
+    int result = ( fwrite(buffer.c_str(),1,buffer.size(),stderr) == buffer.size() ) ? 0 : EOF;
     buffer.clear();
-	int result = fflush(stderr);
+	if ( fflush(stderr) != 0 ) {
+		result = EOF;
+	}
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
 }
 
-- 
2.43.0


From f73c2547389f47be85219339a4d083e66bdc63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 080/119] fix: the number of locks on a mutex was miscounted by
 failing and by simultaneous operations

---
 ecl_threads/include/ecl/threads/mutex_pos.hpp |  2 +-
 ecl_threads/src/lib/mutex_pos.cpp             | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/mutex_pos.hpp b/ecl_threads/include/ecl/threads/mutex_pos.hpp
index 99335dc..5620051 100644
--- a/ecl_threads/include/ecl/threads/mutex_pos.hpp
+++ b/ecl_threads/include/ecl/threads/mutex_pos.hpp
@@ -143,7 +143,7 @@ public:
 	 *
 	 * @return unsigned int : the number of locks currently associated with this mutex.
 	 **/
-	unsigned int locks() { return number_locks; }
+	unsigned int locks() { return __sync_add_and_fetch(&number_locks, 0); }
 
 	/**
 	 * @brief Accesses the system-dependent fundamental mutex type.
diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 6f81844..a29b7df 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -68,8 +68,11 @@ Mutex::~Mutex()
 
 void Mutex::lock()
 {
-  ++number_locks;
+  __sync_add_and_fetch(&number_locks, 1);
   int result = pthread_mutex_lock(&mutex);
+  if (result != 0) {
+    __sync_sub_and_fetch(&number_locks, 1);
+  }
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
@@ -85,7 +88,7 @@ bool Mutex::trylock(Duration &duration)
       return false;
     }
     ecl_assert_throw(result == 0, threads::throwMutexTimedLockException(LOC,result));
-    ++number_locks;
+    __sync_add_and_fetch(&number_locks, 1);
   #else
     (void) duration;
     return trylock(); // fallback option
@@ -105,14 +108,18 @@ bool Mutex::trylock()
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
 
   // If we made it here, it means the attempt locked the mutex.
-  ++number_locks;
+  __sync_add_and_fetch(&number_locks, 1);
   return true;
 }
 
 void Mutex::unlock()
 {
-  --number_locks;
+  // once unlocked, the mutex may be destroyed by whoever gets it next, so do the counting first
+  __sync_sub_and_fetch(&number_locks, 1);
   int result = pthread_mutex_unlock(&mutex);
+  if (result != 0) {
+    __sync_add_and_fetch(&number_locks, 1);
+  }
   ecl_assert_throw(result == 0, threads::throwMutexUnLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
-- 
2.43.0


From 084dfc09b5fce75f9c3571d7f45b73b0c07f9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 081/119] fix: trying to lock a mutex for a duration did not
 wait (and would have taken the duration for a point in time)

---
 ecl_threads/src/lib/mutex_pos.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index a29b7df..0da5813 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -17,6 +17,8 @@
  *****************************************************************************/
 
 #include <errno.h>
+#include <time.h>
+#include <unistd.h> // _POSIX_TIMEOUTS
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/threads/mutex.hpp"
 
@@ -80,9 +82,18 @@ void Mutex::lock()
 bool Mutex::trylock(Duration &duration)
 {
   #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
+    // posix expects the (absolute) time at which to give up
     timespec timeout;
-    timeout.tv_sec = duration.sec();
-    timeout.tv_nsec = duration.nsec();
+    clock_gettime(CLOCK_REALTIME, &timeout);
+    timeout.tv_sec += duration.sec();
+    timeout.tv_nsec += duration.nsec();
+    if (timeout.tv_nsec >= 1000000000L) {
+      ++timeout.tv_sec;
+      timeout.tv_nsec -= 1000000000L;
+    } else if (timeout.tv_nsec < 0) {
+      --timeout.tv_sec;
+      timeout.tv_nsec += 1000000000L;
+    }
     int result = pthread_mutex_timedlock(&mutex, &timeout);
     if (result == ETIMEDOUT) {
       return false;
-- 
2.43.0


From e7d6cb21cebf56a668d5b81eca2ab1efead523d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:42 +0000
Subject: [PATCH 082/119] fix: a thread that failed to start detached an
 uninitialised thread handle at its end, and could not be started again

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 6 ++----
 ecl_threads/src/lib/thread_pos.cpp             | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index fe01f7b..ce130fa 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -457,8 +457,6 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
@@ -470,6 +468,7 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
@@ -479,8 +478,6 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
@@ -492,6 +489,7 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8decbc2..27c4840 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -43,8 +43,6 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   if ( has_started ) {
     ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
     return Error(BusyError); // if in release mode, gracefully fall back to return values.
-  } else {
-    has_started = true;
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
@@ -57,6 +55,7 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
-- 
2.43.0


From 0a9574211aa08c6fa4e4c240b3eb3e8a17b79f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 083/119] fix: a finished thread was reported as running for
 ever, and cancelling it (or one never started) deleted its task twice and
 leaked the thread

---
 .../include/ecl/threads/thread_pos.hpp        | 76 +++++++++++++++----
 ecl_threads/src/lib/thread_pos.cpp            | 49 +++++++-----
 2 files changed, 91 insertions(+), 34 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index ce130fa..09394ca 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -42,6 +42,24 @@ namespace threads {
 /*****************************************************************************
 ** Interface [ThreadTask]
 *****************************************************************************/
+/**
+ * @brief Whether a task is still running, shared by the task and the thread object (either may end first).
+ */
+class ECL_LOCAL ThreadStatus {
+public:
+	ThreadStatus() : owners(2), running(1) {}
+	bool isRunning() { return __sync_add_and_fetch(&running, 0) != 0; }
+	void finished() { __sync_sub_and_fetch(&running, 1); }
+	void release() {
+		if ( __sync_sub_and_fetch(&owners, 1) == 0 ) {
+			delete this;
+		}
+	}
+private:
+	int owners;
+	int running;
+};
+
 /**
  * @brief Psuedo-mechanism for creating ThreadTask objects in @ref ecl::Thread "Thread".
  *
@@ -50,11 +68,29 @@ namespace threads {
  */
 class ECL_LOCAL ThreadTaskBase {
 public:
-	virtual ~ThreadTaskBase() {};
+	virtual ~ThreadTaskBase() {
+		status->finished();
+		status->release();
+	};
+	ThreadStatus* statusHandle() { return status; } /**< The status of this task, which may outlive it. **/
 
 protected:
-	ThreadTaskBase(const Priority& priority) : priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+	ThreadTaskBase(const Priority& priority) : priority_level(priority), status(new ThreadStatus()) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
 	ecl::Priority priority_level;
+
+	/**
+	 * @brief Deletes the task at the end of its thread, also if that is cancelled.
+	 */
+	class Cleaner {
+	public:
+		Cleaner(ThreadTaskBase *task) : task(task) {}
+		~Cleaner() { delete task; }
+	private:
+		ThreadTaskBase *task;
+	};
+
+private:
+	ThreadStatus *status;
 };
 /**
  * @brief The thread task template family.
@@ -93,9 +129,9 @@ public:
 	 */
 	static void* EntryPoint(void *ptr_this) {
 	    ThreadTask< F, false > *ptr = static_cast< ThreadTask< F, false > * >(ptr_this);
+	    Cleaner cleaner(ptr);
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
 	    ptr_this = NULL;
 	    return ptr_this;
 	}
@@ -141,9 +177,9 @@ public:
 	 */
 	static void* EntryPoint(void *ptr_this) {
 	    ThreadTask< F, true > *ptr = static_cast< ThreadTask< F, true > * >(ptr_this);
+	    Cleaner cleaner(ptr);
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
 	    ptr_this = NULL;
 	    return ptr_this;
 	}
@@ -240,9 +276,10 @@ public:
 	 * Use one of the start() functions to kick the thread off.
 	 */
 	Thread() :
-		thread_task(NULL),
+		thread_status(NULL),
 		has_started(false),
-		join_requested(false)
+		join_requested(false),
+	cancel_requested(false)
 	{
 		(void) schedule_parameters;
 	}
@@ -381,7 +418,7 @@ public:
 	 *
 	 * @return bool : true if the thread task is still running, false otherwise.
 	 */
-	bool isRunning() const { if ( thread_task == NULL ) { return false; } else { return true; } }
+	bool isRunning() const { return ( thread_status != NULL ) && !cancel_requested && thread_status->isRunning(); }
 
 	/**
 	 * @brief Queue a cancel request for this thread to abort.
@@ -417,9 +454,10 @@ private:
 	pthread_t thread_handle;
     pthread_attr_t attrs;
     sched_param schedule_parameters;
-    threads::ThreadTaskBase *thread_task;
+    threads::ThreadStatus *thread_status;
     bool has_started;
     bool join_requested;
+    bool cancel_requested;
 
 	void initialise(const long &stack_size);
 
@@ -434,9 +472,10 @@ private:
 
 template <typename C>
 Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
+	thread_status(NULL),
 	has_started(false),
-	join_requested(false)
+	join_requested(false),
+	cancel_requested(false)
 {
 	start<C>(function, c, priority, stack_size);
 
@@ -444,9 +483,10 @@ Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long
 
 template <typename F>
 Thread::Thread(const F &function, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
+	thread_status(NULL),
 	has_started(false),
-	join_requested(false)
+	join_requested(false),
+	cancel_requested(false)
 {
 	start<F>(function, priority, stack_size);
 }
@@ -459,12 +499,14 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	threads::ThreadTaskBase *thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	thread_status = thread_task->statusHandle();
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< BoundNullaryMemberFunction<C,void> >::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
+    	thread_status->release();
+    	thread_status = NULL;
     	delete thread_task;
-    	thread_task = NULL;
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -480,12 +522,14 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	threads::ThreadTaskBase *thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	thread_status = thread_task->statusHandle();
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask<F, is_reference_wrapper<F>::value>::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
+    	thread_status->release();
+    	thread_status = NULL;
     	delete thread_task;
-    	thread_task = NULL;
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 27c4840..7b40d79 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -31,9 +31,10 @@ namespace ecl {
 *****************************************************************************/
 
 Thread::Thread(VoidFunction function, const Priority &priority, const long &stack_size) :
-  thread_task(NULL),
+  thread_status(NULL),
   has_started(false),
-  join_requested(false)
+  join_requested(false),
+  cancel_requested(false)
 {
   start(function, priority, stack_size);
 }
@@ -46,12 +47,14 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
-  thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  threads::ThreadTaskBase *thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  thread_status = thread_task->statusHandle();
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< NullaryFreeFunction<void> >::EntryPoint, thread_task);
   pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
+      thread_status->release();
+      thread_status = NULL;
       delete thread_task;
-      thread_task = NULL;
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -75,28 +78,38 @@ Thread::~Thread() {
   if ( has_started && !join_requested ) {
       pthread_detach(thread_handle);
   }
+  if ( thread_status != NULL ) {
+    thread_status->release();
+  }
 }
 void Thread::cancel() {
+  if ( ( thread_status == NULL ) || join_requested || !thread_status->isRunning() ) {
+    ecl_debug_throw(threads::throwPthreadCancelException(LOC,ESRCH));
+    return;
+  }
+  // the task cleans up after itself once its thread gets around to being cancelled
   int result = pthread_cancel(thread_handle);
-  // Note - if we reach here, then entrypoint hasn't gone through to conclusion and
-  // subsequently the thread_task object on the heap hasn't been deleted. So...
-  // always delete it here!
-    if ( thread_task != NULL ) {
-      delete thread_task;
-      thread_task = NULL;
-    }
-    if ( result != 0 ) {
-        ecl_debug_throw(threads::throwPthreadJoinException(LOC,result));
-    }
+  if ( result != 0 ) {
+    ecl_debug_throw(threads::throwPthreadCancelException(LOC,result));
+    return;
+  }
+  cancel_requested = true;
 }
 
 void Thread::join() {
+  if ( thread_status == NULL ) {
+    return;
+  }
+  if ( join_requested ) {
+    ecl_debug_throw(threads::throwPthreadJoinException(LOC,ESRCH));
+    return;
+  }
   join_requested = true;
-  if( thread_task != NULL ) {
-    int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
-      ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
-      (void) result; // for unused variable warnings, in case the assert wasn't triggered
+  int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
+  if ( result != 0 ) {
+    join_requested = false;
   }
+  ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
 }
 
 void Thread::initialise(const long &stack_size) {
-- 
2.43.0


From 014febfba3af2b442f0500cd7301685c74ff6ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 084/119] fix: a threadable whose thread could not be created
 considered itself running from then on

---
 ecl_threads/include/ecl/threads/threadable.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecl_threads/include/ecl/threads/threadable.hpp b/ecl_threads/include/ecl/threads/threadable.hpp
index 1f90eb4..dc4174b 100644
--- a/ecl_threads/include/ecl/threads/threadable.hpp
+++ b/ecl_threads/include/ecl/threads/threadable.hpp
@@ -79,7 +79,16 @@ public:
 	bool start(const Priority &priority = DefaultPriority) {
 		if ( isRunning() ) { return false; }
 		isRunning(true); // This is not ideal, as it's not perfectly atomic (i.e. someone can query isRunning before this gets set).
-		Thread thread(&Threadable::executeThreadFunction,*this, priority);
+		Thread thread;
+		ecl_try {
+			if ( thread.start(&Threadable::executeThreadFunction, *this, priority).flag() != NoError ) {
+				isRunning(false);
+				return false;
+			}
+		} ecl_catch( const StandardException &e ) {
+			isRunning(false);
+			ecl_throw(StandardException(LOC,e));
+		}
 		return true;
 	}
 	/**
-- 
2.43.0


From 669b48f8ac1f58e5b5bbe9877ea23ce9e21fedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 085/119] fix: failing to set all but the critical priority was
 reported as a success

---
 ecl_threads/src/lib/priority_pos.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 83d974e..9e0d50f 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -91,19 +91,19 @@ bool set_priority(Priority priority_level)
             break;
         }
         case HighPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case NormalPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
             break;
         }
         case LowPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case BackgroundPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MAX);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MAX);
             break;
         }
         default : {
-- 
2.43.0


From a2e4dde8e57cf85c1a699d387a410ae49664f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 086/119] fix: a background priority was reported as a normal
 one

---
 ecl_threads/src/lib/priority_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 9e0d50f..18a6c77 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -176,6 +176,7 @@ Priority get_priority()
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4) : { return HighPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2) : { return NormalPriority; }
         case (PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4) : { return LowPriority; }
+        case (PRIO_MAX-1) : // linux does not go any further
         case (PRIO_MAX) : { return BackgroundPriority; }
         default : return NormalPriority;
     }
-- 
2.43.0


From bd22444f4d47e6c9d5b8974aac348ef7e3ef4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 087/119] fix: setting a regular priority had no effect on a
 process with a real time priority

---
 ecl_threads/src/lib/priority_pos.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 18a6c77..eb9679a 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -85,6 +85,18 @@ bool set_priority(Priority priority_level)
     *************************************************************************/
     int return_value = 0;
 
+    #if _POSIX_PRIORITY_SCHEDULING > 0
+        // niceness has no effect under the real time policies
+        if ( ( priority_level >= BackgroundPriority ) && ( sched_getscheduler(0) == SCHED_RR ) ) {
+            sched_param schedule_parameters;
+            schedule_parameters.sched_priority = 0;
+            if ( sched_setscheduler(0, SCHED_OTHER, &schedule_parameters) == -1 ) {
+                ecl_debug_throw(threads::throwPriorityException(LOC));
+                return false;
+            }
+        }
+    #endif
+
     switch (priority_level) {
         case CriticalPriority : {
             return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN);
-- 
2.43.0


From 2790c21290ffca7840eebd3bdb16699b09ae2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 088/119] fix: a signal made Semaphore::lock return without the
 lock

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 7a8291a..d9c1db5 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -103,7 +103,8 @@ Semaphore::~Semaphore()
 
 void Semaphore::lock()
 {
-	sem_wait(semaphore);
+	// A signal may interrupt the wait, only return once we really have the lock.
+	while ( ( sem_wait(semaphore) != 0 ) && ( errno == EINTR ) ) {}
 }
 
 int Semaphore::count()
-- 
2.43.0


From 901b1759b193150d93b7ef25ccb4214bd4cd5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 089/119] fix: Semaphore::trylock with a timeout did not wait,
 its deadline was on another clock

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index d9c1db5..34bad95 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -141,17 +141,20 @@ bool Semaphore::trylock()
 bool Semaphore::trylock( const Duration &timeout ) {
 
     #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
-		long tnsec;
 		timespec ctime;
 
-		if ( epoch_time(ctime).flag() != NoError ) { return false; }
+		// sem_timedwait expects a deadline on the real time clock.
+		if ( clock_gettime(CLOCK_REALTIME,&ctime) != 0 ) { return false; }
 
 		ctime.tv_sec += timeout.sec();
-
-		tnsec = ctime.tv_nsec + timeout.nsec();
-		if(tnsec >=  999999999 ) { ctime.tv_sec += 1; }
-		tnsec %= 1000000000;
-		ctime.tv_nsec = tnsec;
+		ctime.tv_nsec += timeout.nsec();
+		if ( ctime.tv_nsec >= 1000000000L ) {
+			ctime.tv_sec += 1;
+			ctime.tv_nsec -= 1000000000L;
+		} else if ( ctime.tv_nsec < 0 ) {
+			ctime.tv_sec -= 1;
+			ctime.tv_nsec += 1000000000L;
+		}
 
 		// We already guarantee timeout is the right structure, so no
 		// need to check for EINVAL, other errors should be almost
-- 
2.43.0


From 4eca30e489618ef70eb2ed47fa1a7709400a2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 090/119] fix: any user of a semaphore removed its name,
 splitting later users from the ones before

---
 ecl_ipc/include/ecl/ipc/semaphore_pos.hpp |  1 +
 ecl_ipc/src/lib/semaphore_pos.cpp         | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp b/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
index d149c13..2846deb 100644
--- a/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
@@ -183,6 +183,7 @@ public:
 private:
 	std::string name;
 	sem_t* semaphore;
+	bool creator; // whoever created the semaphore removes its name
 
 	/**
 	 * @brief Return the semaphore count.
diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 34bad95..b0315f7 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -44,7 +44,8 @@ Semaphore::Semaphore() {
 
 Semaphore::Semaphore(const std::string& string_id):
 	name(string("/"+string_id)),
-	semaphore(NULL)
+	semaphore(NULL),
+	creator(false)
 {
     /*********************
      * Open Flags
@@ -55,7 +56,8 @@ Semaphore::Semaphore(const std::string& string_id):
      *
      * Other flags are unnecessary.
      */
-    static const int open_flags = O_CREAT;
+    static const int create_flags = O_CREAT|O_EXCL;
+    static const int open_flags = 0;
     /*********************
      * Permissions
      *********************/
@@ -89,7 +91,15 @@ Semaphore::Semaphore(const std::string& string_id):
     /*********************
     ** Open
     **********************/
-    semaphore = sem_open(name.c_str(),open_flags,permissions,initial_value_unlocked);
+    do {
+        semaphore = sem_open(name.c_str(),create_flags,permissions,initial_value_unlocked);
+        creator = ( semaphore != SEM_FAILED );
+        if ( creator || ( errno != EEXIST ) ) {
+            break;
+        }
+        // Already there, connect to it (try again if it is removed in between).
+        semaphore = sem_open(name.c_str(),open_flags);
+    } while ( ( semaphore == SEM_FAILED ) && ( errno == ENOENT ) );
     ecl_assert_throw(semaphore != SEM_FAILED, ipc::openSemaphoreException(LOC));
 }
 
@@ -98,7 +108,9 @@ Semaphore::~Semaphore()
 	// Should check the error, but only fails if the semaphore is invalid (checked by constructor).
     sem_close(semaphore);
 	// Should check the error, but only fails with noncritical errors.
-    sem_unlink(name.c_str());
+    if ( creator ) {
+        sem_unlink(name.c_str());
+    }
 }
 
 void Semaphore::lock()
-- 
2.43.0


From 799bc0a123f29907899685dc3471fd7942c6a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:41 +0000
Subject: [PATCH 091/119] fix: failing to attach to a shared memory removed the
 name others use and leaked the mapping

---
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 88f8894..f922aa6 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -42,6 +42,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <errno.h>
 #include <sstream>
 #include <string>
 #include <sys/mman.h>        /* For shm_open() */
@@ -195,9 +196,12 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
     void * shm_address;
     if ( (shm_address = mmap(0,shared_memory_size,PROT_READ|PROT_WRITE,MAP_SHARED,shm_descriptor,(long) 0)) == MAP_FAILED )
     {
-        shared_memory_manager = false;
+        int error_result = errno;
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { // do not take away what others created
+            unlink();
+        }
+        errno = error_result;
         ecl_throw( ipc::memoryMapException(LOC) );
     }
     /*
@@ -206,9 +210,11 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
      */
     if ( ftruncate(shm_descriptor,shared_memory_size) < 0 )
     {
-        shared_memory_manager = false;
+        munmap(shm_address,shared_memory_size);
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { // do not take away what others created
+            unlink();
+        }
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
     }
 
-- 
2.43.0


From 9561ec3e89ba65a7c5ea203c7403aa58a70a7fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:41 +0000
Subject: [PATCH 092/119] fix: a manually unlinked shared memory removed the
 name of its successor on destruction

---
 ecl_ipc/src/lib/shared_memory_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 7430e0b..04b049e 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -38,6 +38,7 @@ namespace ipc {
 
 void SharedMemoryBase::unlink() {
 	shm_unlink(name.c_str());
+	shared_memory_manager = false; // the name may belong to another memory from here on
 }
 
 int SharedMemoryBase::open() {
-- 
2.43.0


From fc2eb97fa202f0b8d67a0feb882d521239cf473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:00 +0000
Subject: [PATCH 093/119] fix: assigning signals or slots did not keep track of
 their handles

---
 ecl_sigslots/include/ecl/sigslots/signal.hpp | 16 ++++++++++++++--
 ecl_sigslots/include/ecl/sigslots/slot.hpp   | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/signal.hpp b/ecl_sigslots/include/ecl/sigslots/signal.hpp
index 843caa6..ed23e86 100644
--- a/ecl_sigslots/include/ecl/sigslots/signal.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/signal.hpp
@@ -75,7 +75,7 @@ public:
 	 * @param signal : the object to be copied.
 	 */
 	Signal(const Signal<Data>& signal) {
-		*this = signal;
+		sigslot = signal.sigslot;
 		sigslot->incrHandles();
 	}
 
@@ -97,7 +97,13 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Data>& signal) {
+		if ( sigslot == signal.sigslot ) { return; }
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) { // we were the last
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
+		sigslot->incrHandles();
 	}
 
 	/**
@@ -183,7 +189,7 @@ public:
 	 * @param signal : the object to be copied.
 	 */
 	Signal(const Signal<Void>& signal) {
-		*this = signal;
+		sigslot = signal.sigslot;
 		sigslot->incrHandles();
 	}
 
@@ -191,7 +197,13 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Void>& signal) {
+		if ( sigslot == signal.sigslot ) { return; }
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) { // we were the last
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
+		sigslot->incrHandles();
 	}
 
 	/**
diff --git a/ecl_sigslots/include/ecl/sigslots/slot.hpp b/ecl_sigslots/include/ecl/sigslots/slot.hpp
index d6bed73..fff9232 100644
--- a/ecl_sigslots/include/ecl/sigslots/slot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/slot.hpp
@@ -117,7 +117,7 @@ public:
 	 * @param slot : the object to be copied.
 	 */
 	Slot(const Slot<Data>& slot) {
-		*this = slot;
+		sigslot = slot.sigslot;
 		sigslot->incrHandles();
 	}
 
@@ -138,7 +138,13 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Data>& slot) {
+		if ( sigslot == slot.sigslot ) { return; }
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) { // we were the last
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
+		sigslot->incrHandles();
 	}
 	/**
 	 * @brief Lists the topics this slot is connected to.
@@ -246,7 +252,7 @@ public:
 	 * @param slot : the object to be copied.
 	 */
 	Slot(const Slot<Void>& slot) {
-		*this = slot;
+		sigslot = slot.sigslot;
 		sigslot->incrHandles();
 	}
 	/**
@@ -266,7 +272,13 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Void>& slot) {
+		if ( sigslot == slot.sigslot ) { return; }
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) { // we were the last
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
+		sigslot->incrHandles();
 	}
 	/**
 	 * @brief Make a connection to the specified topic.
-- 
2.43.0


From 2c6b805ea7158ccbf5a1e65e91a979e2a2292b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 094/119] fix: a sigslot could not be disconnected from a
 single topic

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp | 6 +++---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index f1c79a2..4930ce0 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -121,9 +121,9 @@ private:
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
 		if ( iter != topics().end() ) {
 			iter->second.disconnect(sigslot);
-		}
-		if ( iter->second.empty() ) {
-			topics().erase(iter);
+			if ( iter->second.empty() ) {
+				topics().erase(iter);
+			}
 		}
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 4e36dad..abdf863 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -167,7 +167,8 @@ public:
 	void disconnect(const std::string &topic) {
 		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
-		SigSlotsManager<Void>::disconnect(topic,this);
+		SigSlotsManager<Data>::disconnect(topic,this);
+		subscriptions.erase(topic);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
@@ -330,6 +331,7 @@ public:
 	void disconnect(const std::string &topic) {
 		publications.erase(topic); // Doesn't matter if it finds it or not.
 		SigSlotsManager<Void>::disconnect(topic,this);
+		subscriptions.erase(topic);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
-- 
2.43.0


From 176ed62718e2af477414102035faeda2c78d4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:50 +0000
Subject: [PATCH 095/119] fix: emitting crashed when slots disconnected or
 ended meanwhile, or threads emitted to one slot at once

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp |  19 +++
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 109 +++++++++++++++---
 2 files changed, 109 insertions(+), 19 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index 4930ce0..75806b0 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -18,8 +18,10 @@
 ** Includes
 *****************************************************************************/
 
+#include <condition_variable>
 #include <iostream>
 #include <map>
+#include <mutex>
 #include <string>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/config/macros.hpp>
@@ -57,6 +59,7 @@ public:
 	 * Only here for debugging purposes only.
 	 */
 	static void printStatistics() {
+		std::lock_guard<std::mutex> lock(mutex());
 		std::cout << "Topics" << std::endl;
 		typename std::map< std::string, Topic<Data> >::iterator iter;
 		for ( iter = topics().begin(); iter != topics().end(); ++iter ) {
@@ -137,6 +140,22 @@ private:
 		return !( topics().find(topic) == topics().end() );
 	}
 
+	/**
+	 * @brief Protects the connections (of all sigslots) and the processing counts.
+	 */
+	static std::mutex& mutex() {
+		static std::mutex connections_mutex;
+		return connections_mutex;
+	}
+
+	/**
+	 * @brief Signalled whenever a sigslot has finished processing.
+	 */
+	static std::condition_variable& idle() {
+		static std::condition_variable idle_condition;
+		return idle_condition;
+	}
+
 	/**
 	 * @brief Hack to create a static variable internally without.
 	 *
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index abdf863..bc0a25e 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -18,11 +18,14 @@
 ** Includes
 *****************************************************************************/
 
+#include <condition_variable>
 #include <map>
+#include <mutex>
 #include <set>
 #include <string>
+#include <utility>
+#include <vector>
 #include <ecl/config/macros.hpp>
-#include <ecl/threads/mutex.hpp>
 #include <ecl/utilities/function_objects.hpp>
 #include <ecl/utilities/void.hpp>
 #include "manager.hpp"
@@ -90,7 +93,11 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		std::unique_lock<std::mutex> lock(SigSlotsManager<Data>::mutex());
+		while ( processing_count != 0 ) { // acts like a barrier - holds up here if function still processing stuff.
+			SigSlotsManager<Data>::idle().wait(lock);
+		}
+		lock.unlock();
 		delete function;
 	}
 
@@ -104,13 +111,24 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit(Data data) {
+		// Slots may connect, disconnect or end while others are running, here or in other
+		// threads, so go by a copy and pass over those which have gone in the meantime.
+		std::vector< std::pair<std::string, SigSlot<Data>*> > slots;
+		std::unique_lock<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		typename PublicationMap::const_iterator topic_iter;
 		typename Subscribers::const_iterator slots_iter;
 		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
 			const Subscribers* subscribers = topic_iter->second;
 			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot<Data> *sigslot = *slots_iter;
-				sigslot->process(data);
+				slots.push_back( std::make_pair(topic_iter->first, *slots_iter) );
+			}
+		}
+		for ( unsigned int i = 0; i < slots.size(); ++i ) {
+			SigSlot<Data> *sigslot = slots[i].second;
+			topic_iter = publications.find(slots[i].first);
+			if ( ( topic_iter != publications.end() ) && ( topic_iter->second->count(sigslot) != 0 ) ) {
+				Processing processing(*sigslot,lock);
+				(*(sigslot->function))(data);
 			}
 		}
 	}
@@ -121,12 +139,9 @@ public:
 	 * signals with their emit() methods.
 	 */
 	void process(Data data) {
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		std::unique_lock<std::mutex> lock(SigSlotsManager<Data>::mutex());
+		Processing processing(*this,lock);
 		(*function)(data);
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -144,6 +159,7 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Data>::connectSignal(topic,this)) );
 	}
 	/**
@@ -154,6 +170,7 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void connectSlot(const std::string& topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		std::pair< std::set<std::string>::iterator,bool > ret;
 	//	std::cout << "Topic: " << topic << std::endl;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
@@ -165,6 +182,7 @@ public:
 	 * @brief Disconnect the sigslot from the specified topic.
 	 */
 	void disconnect(const std::string &topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
 		SigSlotsManager<Data>::disconnect(topic,this);
@@ -176,6 +194,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Data>::disconnect(*iter, this);
@@ -191,7 +210,25 @@ public:
 	const std::set<std::string>& subscribedTopics() { return subscriptions; }
 
 private:
-	Mutex mutex;
+	/**
+	 * @brief Holds a sigslot for as long as it is processing, unlocking the connections meanwhile.
+	 */
+	class Processing {
+	public:
+		Processing(SigSlot &s, std::unique_lock<std::mutex> &l) : sigslot(s), lock(l) {
+			++sigslot.processing_count;
+			lock.unlock();
+		}
+		~Processing() {
+			lock.lock();
+			if ( --sigslot.processing_count == 0 ) {
+				SigSlotsManager<Data>::idle().notify_all();
+			}
+		}
+	private:
+		SigSlot &sigslot;
+		std::unique_lock<std::mutex> &lock;
+	};
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
@@ -254,7 +291,11 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		std::unique_lock<std::mutex> lock(SigSlotsManager<Void>::mutex());
+		while ( processing_count != 0 ) { // acts like a barrier - holds up here if function still processing stuff.
+			SigSlotsManager<Void>::idle().wait(lock);
+		}
+		lock.unlock();
 		delete function;
 	}
 
@@ -268,13 +309,24 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit() {
+		// Slots may connect, disconnect or end while others are running, here or in other
+		// threads, so go by a copy and pass over those which have gone in the meantime.
+		std::vector< std::pair<std::string, SigSlot*> > slots;
+		std::unique_lock<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		PublicationMap::const_iterator topic_iter;
 		Subscribers::const_iterator slots_iter;
 		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
 			const Subscribers* subscribers = topic_iter->second;
 			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot *sigslot = *slots_iter;
-				sigslot->process();
+				slots.push_back( std::make_pair(topic_iter->first, *slots_iter) );
+			}
+		}
+		for ( unsigned int i = 0; i < slots.size(); ++i ) {
+			SigSlot *sigslot = slots[i].second;
+			topic_iter = publications.find(slots[i].first);
+			if ( ( topic_iter != publications.end() ) && ( topic_iter->second->count(sigslot) != 0 ) ) {
+				Processing processing(*sigslot,lock);
+				(*(sigslot->function))();
 			}
 		}
 	}
@@ -286,12 +338,9 @@ public:
 	 */
 	void process(Void void_arg = Void()) {
 		(void)void_arg;
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		std::unique_lock<std::mutex> lock(SigSlotsManager<Void>::mutex());
+		Processing processing(*this,lock);
 		(*function)();
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -309,12 +358,14 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Void>::connectSignal(topic,this)) );
 	}
 	/**
 	 * @brief Connect a slot to the specified topic.
 	 */
 	void connectSlot(const std::string& topic){
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		std::pair< std::set<std::string>::iterator,bool > ret;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
 		if ( ret.second ) {
@@ -329,6 +380,7 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void disconnect(const std::string &topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		publications.erase(topic); // Doesn't matter if it finds it or not.
 		SigSlotsManager<Void>::disconnect(topic,this);
 		subscriptions.erase(topic);
@@ -339,6 +391,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Void>::disconnect(*iter, this);
@@ -352,7 +405,25 @@ public:
 	}
 
 private:
-	Mutex mutex;
+	/**
+	 * @brief Holds a sigslot for as long as it is processing, unlocking the connections meanwhile.
+	 */
+	class Processing {
+	public:
+		Processing(SigSlot &s, std::unique_lock<std::mutex> &l) : sigslot(s), lock(l) {
+			++sigslot.processing_count;
+			lock.unlock();
+		}
+		~Processing() {
+			lock.lock();
+			if ( --sigslot.processing_count == 0 ) {
+				SigSlotsManager<Void>::idle().notify_all();
+			}
+		}
+	private:
+		SigSlot &sigslot;
+		std::unique_lock<std::mutex> &lock;
+	};
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
-- 
2.43.0


From fcbdedcba39fd5343fcf3f3cd9ea34b266cf3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 096/119] fix: linear trajectories that could not slow down in
 time stretched the wrong segment for ever

---
 ecl_manipulators/src/lib/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 93b36b7..a5db1c5 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -729,7 +729,7 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
   }
   if (acceleration_constraint_broken)
   {
-    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by pre pseudo point.", 0);
+    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by post pseudo point.", n + 2);
   }
   post_pseudo_waypoint.duration(t_pullforward - t_post_intersect_duration);
   for (unsigned int j = 0; j < dimension(); ++j)
-- 
2.43.0


From bdf615ce6cb619304aff0a467cfd2d1e81bbaaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 097/119] fix: linear trajectories did not end with the rates
 configured

---
 ecl_manipulators/src/lib/trajectory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index a5db1c5..3be552e 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -643,6 +643,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
+    if (!acceleration_constraint_broken)
+    {
+      break; // this is the one we'll use
+    }
     t_pullback = t_pullback * 2; // takes 11 runs to get from 1ms to 1s; adjust, if this is too much
   }
   if (acceleration_constraint_broken)
@@ -725,6 +729,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
+    if (!acceleration_constraint_broken)
+    {
+      break; // this is the one we'll use
+    }
     t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
   }
   if (acceleration_constraint_broken)
-- 
2.43.0


From edf4e1c8df060dfb49845aad849028488ebc583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 098/119] fix: tension splines were not a number where tension
 times segment length is large

---
 ecl_geometry/src/lib/tension_function.cpp     | 25 ++++++++++++++++---
 .../src/lib/tension_spline_blueprints.cpp     |  2 +-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_function.cpp b/ecl_geometry/src/lib/tension_function.cpp
index 136213d..f6a23eb 100644
--- a/ecl_geometry/src/lib/tension_function.cpp
+++ b/ecl_geometry/src/lib/tension_function.cpp
@@ -19,6 +19,25 @@
 
 namespace ecl {
 
+/*****************************************************************************
+** Utilities
+*****************************************************************************/
+
+namespace {
+
+// sinh(a)/sinh(b) and cosh(a)/sinh(b), these do not overflow when both are large.
+double sinhRatio(const double &a, const double &b) {
+    if ( b < 300.0 ) { return sinh(a)/sinh(b); }
+    return exp(a-b) - exp(-a-b);
+}
+
+double coshRatio(const double &a, const double &b) {
+    if ( b < 300.0 ) { return cosh(a)/sinh(b); }
+    return exp(a-b) + exp(-a-b);
+}
+
+} // namespace
+
 /*****************************************************************************
 ** Implementation [TensionFunction]
 *****************************************************************************/
@@ -26,7 +45,7 @@ namespace ecl {
 double TensionFunction::derivative(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (-1.0*tau*z_0*cosh(tau*(x_f-x)) + tau*z_f*cosh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = (-1.0*tau*z_0*coshRatio(tau*(x_f-x),tau*h) + tau*z_f*coshRatio(tau*(x-x_0),tau*h))/(tau*tau);
     value += -1.0*(y_0-z_0/(tau*tau))/h;
     value += (y_f-z_f/(tau*tau))/h;
 
@@ -37,7 +56,7 @@ double TensionFunction::derivative(const double &tau, const double &x) const {
 double TensionFunction::dderivative(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (tau*tau*z_0*sinh(tau*(x_f-x)) + tau*tau*z_f*sinh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = z_0*sinhRatio(tau*(x_f-x),tau*h) + z_f*sinhRatio(tau*(x-x_0),tau*h);
 
     return value;
 }
@@ -45,7 +64,7 @@ double TensionFunction::dderivative(const double &tau, const double &x) const {
 double TensionFunction::operator ()(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (z_0*sinh(tau*(x_f-x)) + z_f*sinh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = (z_0*sinhRatio(tau*(x_f-x),tau*h) + z_f*sinhRatio(tau*(x-x_0),tau*h))/(tau*tau);
     value += (y_0-z_0/(tau*tau))*(x_f-x)/h;
     value += (y_f-z_f/(tau*tau))*(x-x_0)/h;
     return value;
diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index 4bf0e7f..375ab7c 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -64,7 +64,7 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
     for ( unsigned int i = 0; i < n; ++i ) {
         h[i] = x_set[i+1]-x_set[i];
         a[i] = 1/h[i] - tension/sinh(tension*h[i]);
-        beta[i] = tension*(cosh(tension*h[i])/sinh(tension*h[i])) - 1/h[i];
+        beta[i] = tension/tanh(tension*h[i]) - 1/h[i];
         gamma[i] = tension*tension*(y_data[i+1]-y_data[i])/h[i];
     }
     /*
-- 
2.43.0


From 2de71ea29f26f34b2c88f06ee76b35067e477549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 099/119] fix: tension spline trajectories jumped after the
 first quintic when the last segment had to be stretched

---
 ecl_manipulators/src/lib/trajectory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 3be552e..3a78716 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -189,7 +189,9 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
       { // give up, go back to start of while loop with increased duration
 //				std::cout << "Quintic unconstrained, increasing the first duration : " << waypoints[0].duration() << std::endl;
         waypoints[0].duration(waypoints[0].duration() * 1.1); // 10% increase
-        break; // from the for loop
+        // this changes the tension spline, so everything done so far needs to be done again
+        tensionSplineInterpolation(tension);
+        return;
       }
     }
   }
@@ -255,7 +257,9 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
       if (!quintic_constrained)
       { // give up, go back to start of while loop with increased duration
         waypoints[n - 1].duration(waypoints[n - 1].duration() * 1.1); // 10% increase
-        break;
+        // this changes the tension spline, so everything done so far needs to be done again
+        tensionSplineInterpolation(tension);
+        return;
       }
     }
   }
-- 
2.43.0


From 4d6958e2f73313eaaec6d45222cd1f933c9e9a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:08 +0000
Subject: [PATCH 100/119] fix: extremes and roots of polynomials with a small
 leading coefficient were lost to cancellation

---
 ecl_geometry/src/lib/polynomial.cpp | 34 ++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 11feed2..539c7c7 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -27,6 +27,26 @@
 
 namespace ecl {
 
+namespace {
+
+/**
+ * The roots (-b + sqrt(b^2-4ac))/(2a) and (-b - sqrt(b^2-4ac))/(2a), but not subtracting
+ * numbers that are nearly the same (nothing is left of a root if a is small).
+ */
+void quadratic_roots(const double &a, const double &b, const double &c, const double &sqrt_discriminant, double &root_plus, double &root_minus) {
+	if ( b >= 0 ) {
+		double q = -(b + sqrt_discriminant)/2;
+		root_plus = c/q;
+		root_minus = q/a;
+	} else {
+		double q = (-b + sqrt_discriminant)/2;
+		root_plus = q/a;
+		root_minus = c/q;
+	}
+}
+
+} // namespace
+
 /*****************************************************************************
 ** Implementation [Synthetic Division]
 *****************************************************************************/
@@ -79,8 +99,10 @@ Array<double> Roots< QuadraticPolynomial >::operator()(const QuadraticPolynomial
 	} else {
 		double discriminant = b*b - 4*a*c;
 		if ( discriminant > 0.0 ) {
+			double root_plus, root_minus;
+			quadratic_roots(a, b, c, sqrt(discriminant), root_plus, root_minus);
 			intercepts.resize(2);
-			intercepts << (-b + sqrt(discriminant))/(2*a), (-b - sqrt(discriminant))/(2*a);
+			intercepts << root_plus, root_minus;
 		} else if ( discriminant == 0.0 ) {
 			intercepts.resize(1);
 			intercepts << -b/(2*a);
@@ -207,14 +229,15 @@ double Maximum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			double root, other_root;
+			quadratic_roots(a, b, c, sqrt(sqrt_term), root, other_root);
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
 					max = test_max;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = other_root;
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
@@ -259,14 +282,15 @@ double Minimum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			double root, other_root;
+			quadratic_roots(a, b, c, sqrt(sqrt_term), root, other_root);
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
 					min = test_min;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = other_root;
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
-- 
2.43.0


From 019642d0fc2fdc7ed0b6100faa654e44ec1dec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:44 +0000
Subject: [PATCH 101/119] fix: axes and lengths of two dimensional ellipses
 were lost to cancellation

---
 .../src/lib/covariance_ellipsoid.cpp          | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 81fdf9d..6c2bb81 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -9,6 +9,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <algorithm>
 #include <ecl/linear_algebra.hpp>
 #include "../../include/ecl/statistics/covariance_ellipsoid.hpp"
 
@@ -55,8 +56,8 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	float c = M(1,0);
 	float d = M(1,1);
 
-	float tmp = sqrtf((a+d)*(a+d)/4 - a*d + b*c);
-    ellipse_lengths << sqrtf((a+d)/2 + tmp), sqrtf((a+d)/2 - tmp);
+	float tmp = sqrtf((a-d)*(a-d)/4 + b*c);
+    ellipse_lengths << sqrtf((a+d)/2 + tmp), sqrtf(std::max<float>((a+d)/2 - tmp, 0));
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
     // CHECK: ordered in decreasing order of magnitude
@@ -65,9 +66,18 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
+        // eigenvalues less d, their product is -b*c (subtracting d from them loses all digits if c is small)
+        float first, second;
+        if ( a >= d ) {
+            first = (a-d)/2 + tmp;
+            second = ( first != 0 ) ? -b*c/first : 0;
+        } else {
+            second = (a-d)/2 - tmp;
+            first = -b*c/second;
+        }
+        ellipse_axes(0,0) = first;
         ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
+        ellipse_axes(0,1) = second;
         ellipse_axes(1,1) = c;
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
@@ -151,8 +161,8 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	double c = M(1,0);
 	double d = M(1,1);
 
-    double tmp = sqrt((a+d)*(a+d)/4 - a*d + b*c);
-    ellipse_lengths << sqrt((a+d)/2 + tmp), sqrt((a+d)/2 - tmp);
+    double tmp = sqrt((a-d)*(a-d)/4 + b*c);
+    ellipse_lengths << sqrt((a+d)/2 + tmp), sqrt(std::max<double>((a+d)/2 - tmp, 0));
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
     // CHECK: ordered in decreasing order of magnitude
@@ -161,9 +171,18 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
+        // eigenvalues less d, their product is -b*c (subtracting d from them loses all digits if c is small)
+        double first, second;
+        if ( a >= d ) {
+            first = (a-d)/2 + tmp;
+            second = ( first != 0 ) ? -b*c/first : 0;
+        } else {
+            second = (a-d)/2 - tmp;
+            first = -b*c/second;
+        }
+        ellipse_axes(0,0) = first;
         ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
+        ellipse_axes(0,1) = second;
         ellipse_axes(1,1) = c;
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
-- 
2.43.0


From 127ad87f45c73d7db7eefb87e34a30c83ffb11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:59 +0000
Subject: [PATCH 102/119] fix: axes of ellipsoids with equal lengths were not
 at right angles, nor of the given covariance

---
 .../src/lib/covariance_ellipsoid.cpp          | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 6c2bb81..98e4a1b 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -33,6 +33,31 @@ using ecl::linear_algebra::Vector2d;
 using ecl::linear_algebra::Matrix3d;
 using ecl::linear_algebra::Vector3d;
 
+namespace {
+
+/**
+ * Lengths and orthonormal axes of a (symmetric) covariance matrix, also if some of its
+ * eigenvalues are the same. Each axis goes with the index of the matrix it is closest to.
+ */
+template <typename Scalar>
+void ellipsoid(const Eigen::Matrix<Scalar,3,3> &M, Eigen::Matrix<Scalar,3,1> &lengths, Eigen::Matrix<Scalar,3,3> &axes) {
+	Eigen::SelfAdjointEigenSolver< Eigen::Matrix<Scalar,3,3> > esolver(M);
+	bool used[3] = { false, false, false };
+	for ( int i = 0; i < 3; ++i ) {
+		int closest = -1;
+		for ( int j = 0; j < 3; ++j ) {
+			if ( !used[j] && ( ( closest < 0 ) || ( std::abs(esolver.eigenvectors()(i,j)) > std::abs(esolver.eigenvectors()(i,closest)) ) ) ) {
+				closest = j;
+			}
+		}
+		used[closest] = true;
+		lengths[i] = std::sqrt(std::max<Scalar>(esolver.eigenvalues()[closest], 0));
+		axes.col(i) = esolver.eigenvectors().col(closest);
+	}
+}
+
+} // namespace
+
 /*****************************************************************************
 ** Implementation [CovarianceEllipsoid2f]
 *****************************************************************************/
@@ -258,12 +283,7 @@ CovarianceEllipsoid<float,3>::CovarianceEllipsoid(const ecl::linear_algebra::Mat
 }
 void CovarianceEllipsoid<float,3>::compute(const ecl::linear_algebra::Matrix3f &M, const bool sort) {
 
-	Eigen::EigenSolver<Matrix3f> esolver(M);
-
-	ellipse_lengths[0] = sqrtf(esolver.pseudoEigenvalueMatrix()(0,0));
-	ellipse_lengths[1] = sqrtf(esolver.pseudoEigenvalueMatrix()(1,1));
-	ellipse_lengths[2] = sqrtf(esolver.pseudoEigenvalueMatrix()(2,2));
-	ellipse_axes = esolver.pseudoEigenvectors ();
+	ellipsoid<float>(M, ellipse_lengths, ellipse_axes);
 
 	if ( sort ) {
 		// Note that sorting of eigenvalues may end up with left-hand coordinate system.
@@ -290,12 +310,7 @@ CovarianceEllipsoid<double,3>::CovarianceEllipsoid(const ecl::linear_algebra::Ma
 	compute(M,sort);
 }
 void CovarianceEllipsoid<double,3>::compute(const ecl::linear_algebra::Matrix3d &M, const bool sort) {
-	Eigen::EigenSolver<Matrix3d> esolver(M);
-
-	ellipse_lengths[0] = sqrt(esolver.pseudoEigenvalueMatrix()(0,0));
-	ellipse_lengths[1] = sqrt(esolver.pseudoEigenvalueMatrix()(1,1));
-	ellipse_lengths[2] = sqrt(esolver.pseudoEigenvalueMatrix()(2,2));
-	ellipse_axes = esolver.pseudoEigenvectors ();
+	ellipsoid<double>(M, ellipse_lengths, ellipse_axes);
 
 	if ( sort ) {
 		// Note that sorting of eigenvalues may end up with left-hand coordinate system.
-- 
2.43.0


From 28715e8b822010cd464d7be5b61789d09a907675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:40 +0000
Subject: [PATCH 103/119] fix: the second intercept of an ellipse used the sine
 of its rotation for the cosine

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 98e4a1b..96e9271 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -158,7 +158,7 @@ Vector2f CovarianceEllipsoid<float,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2f( (ellipse_lengths(0)/ellipse_lengths(1)), tanf(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*sinf(angle));
+	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*cosf(angle));
 
 	return intercept_magnitudes;
 }
@@ -263,7 +263,7 @@ Vector2d CovarianceEllipsoid<double,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2( (ellipse_lengths(0)/ellipse_lengths(1)), tan(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*sin(angle));
+	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*cos(angle));
 
 	return intercept_magnitudes;
 }
-- 
2.43.0


From 659a2bc6eb81390844d031221e61091fc951948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:47 +0000
Subject: [PATCH 104/119] fix: realpath leaked its buffer, and answered what
 was never written to it, when it failed

---
 ecl_filesystem/src/lib/realpath.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_filesystem/src/lib/realpath.cpp b/ecl_filesystem/src/lib/realpath.cpp
index 4bc7922..3ab9a5e 100644
--- a/ecl_filesystem/src/lib/realpath.cpp
+++ b/ecl_filesystem/src/lib/realpath.cpp
@@ -45,11 +45,13 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
 
   char *buffer = new char[path_max];
   char *result = ::realpath(path.c_str(), buffer);
-  absolute_path = buffer;
+  int error = errno;
   if ( result != NULL ) {
     absolute_path = buffer;
+    delete[] buffer;
   } else {
-    switch(errno) {
+    delete[] buffer; // nothing useful in there
+    switch(error) {
       case(EACCES)       : { return Error(PermissionsError); }   // Read or search permission was denied for a component of the path prefix.
       case(EINVAL)       : { return Error(InvalidArgError); }    // path is NULL
       case(EIO)          : { return Error(ReadError); }          // An I/O error occurred while reading from the filesystem.
@@ -60,7 +62,6 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
       default            : { return Error(UnknownError); }
     }
   }
-  delete[] buffer;
   return Error(NoError);
 }
 
-- 
2.43.0


From 2e2ecc5a54ea56da638984f192406951144338a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:09 +0000
Subject: [PATCH 105/119] fix: serial ports were constructed with their
 descriptor, timeout and open flag undefined

---
 ecl_devices/include/ecl/devices/serial_pos.hpp | 2 +-
 ecl_devices/src/lib/serial_pos.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a3c0dd5..7076f99 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -141,7 +141,7 @@ namespace ecl
      * constructors. Use this with the open() command to do so. You can
      * check for open status with via the open accessor.
      */
-    Serial() : is_open(false), error_handler(NoError)
+    Serial() : file_descriptor(-1), options(), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
     {};
     /**
      * @brief Constructs and opens the connection, RAII style.
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 1103b6f..59c1312 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -68,7 +68,7 @@ using ecl::StandardException;
 
 Serial::Serial(const std::string& port_name, const BaudRate &baud_rate, const DataBits &data_bits,
                const StopBits &stop_bits, const Parity &parity) :
-    port(port_name), read_timeout_ms(5000), error_handler(NoError)
+    file_descriptor(-1), options(), port(port_name), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
 {
   ecl_try
   {
-- 
2.43.0


From b7b04e9ae954faad030cbd7325878c7dd71386a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:09 +0000
Subject: [PATCH 106/119] fix: a serial port that could not be opened leaked
 its descriptor, a closed one kept using its number

---
 ecl_devices/src/lib/serial_pos.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 59c1312..39bde0b 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -124,6 +124,8 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
                                         B230400, B460800, B921600};
   if (baud_rate >= (sizeof(baud_rate_flags) / sizeof(B110)))
   {
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(StandardException(LOC,ConfigurationError,"Selected baudrate is not supported."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -152,8 +154,11 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   file_lock.l_pid = getpid();
   if (fcntl(file_descriptor, F_SETLK, &file_lock) != 0)
   {
+    const int lock_error = errno;
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(
-        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(errno))));
+        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(lock_error))));
     error_handler = IsLockedError;
     is_open = false;
     return false;
@@ -172,6 +177,8 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    **********************/
   if (cfsetspeed(&options, baud_rate_flags[baud_rate]) < 0)
   {
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(StandardException(LOC,ConfigurationError,"Setting speed failed."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -282,6 +289,7 @@ void Serial::close()
   {
     // should check return values here, it does have some, EBADF/EINTR/EIO
     ::close(file_descriptor);
+    file_descriptor = -1;
     is_open = false;
   }
 }
-- 
2.43.0


From 07557f1085b9d59f0cd3f6adb03ebe3110aa1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:09 +0000
Subject: [PATCH 107/119] fix: a serial timeout of zero read nothing, not even
 what was there, one over 25.5 s wrapped around

---
 ecl_devices/src/lib/serial_pos.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 39bde0b..582bc45 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -315,7 +315,7 @@ void Serial::block(const unsigned long &timeout)
     if (timeout < 5)
     {
       fake_snooze.period(ecl::Duration(0.001));
-      fake_loop_count = timeout;
+      fake_loop_count = (timeout == 0) ? 1 : timeout; // always look at least once
     }
     else if (timeout < 20)
     {
@@ -355,7 +355,8 @@ void Serial::block(const unsigned long &timeout)
     }
     else
     {
-      options.c_cc[VTIME] = static_cast<unsigned char>(timeout / 100);
+      // VTIME is a single byte, longer timeouts are cut to what it can hold
+      options.c_cc[VTIME] = static_cast<unsigned char>((timeout / 100 > 255) ? 255 : timeout / 100);
     }
     tcsetattr(file_descriptor, TCSAFLUSH, &options);
   }
-- 
2.43.0


From 1333a76d98f9a0cc5c43b41f52dfffcc192c2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:09 +0000
Subject: [PATCH 108/119] fix: serial ports with parity lost the eighth data
 bit

---
 ecl_devices/src/lib/serial_pos.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 582bc45..0224e25 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -248,13 +248,21 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   }
   else if (parity == EvenParity)
   {
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check
+    if (data_bits != DataBits_8)
+    {
+      options.c_iflag |= ISTRIP; // strip the parity bit (the eighth bit is data if there are eight of them)
+    }
     options.c_cflag |= PARENB;
     options.c_cflag &= ~PARODD;
   }
   else
   { // OddParity
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check
+    if (data_bits != DataBits_8)
+    {
+      options.c_iflag |= ISTRIP; // strip the parity bit (the eighth bit is data if there are eight of them)
+    }
     options.c_cflag |= PARENB;
     options.c_cflag |= PARODD;
   }
-- 
2.43.0


From d82ac6f98671408806f26b24baa9b434584cb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:13 +0000
Subject: [PATCH 109/119] fix: quaternion2yaw: refuse every quaternion with
 non-yaw components, and stop

---
 ecl_core_apps/src/utils/quaternion2yaw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_core_apps/src/utils/quaternion2yaw.cpp b/ecl_core_apps/src/utils/quaternion2yaw.cpp
index 89e16c9..3dde2e9 100644
--- a/ecl_core_apps/src/utils/quaternion2yaw.cpp
+++ b/ecl_core_apps/src/utils/quaternion2yaw.cpp
@@ -46,8 +46,9 @@ int main(int argc, char** argv) {
         std::cerr << "error: " << e.error() << " for arg " << e.argId() << std::endl;
         return 1;
     }
-    if ( ( x != 0.0 ) && ( y != 0.0 ) ) {
+    if ( ( x != 0.0 ) || ( y != 0.0 ) ) {
       std::cout << "This quaternion has non-yaw components, aborting." << std::endl;
+      return 1;
     }
     // This is a very naive way of calculating - it is only for the case where it is a
     // rotation around a z-axis.
-- 
2.43.0


From 48f0ede2a54ea2ea26f1f7e2fdcc270ff2e50a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:13 +0000
Subject: [PATCH 110/119] fix: hex: do not try to convert the newline that ends
 what was typed

---
 ecl_core_apps/src/utils/hex.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_core_apps/src/utils/hex.cpp b/ecl_core_apps/src/utils/hex.cpp
index b85737b..b74a1c4 100644
--- a/ecl_core_apps/src/utils/hex.cpp
+++ b/ecl_core_apps/src/utils/hex.cpp
@@ -10,6 +10,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <cstring>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -97,7 +98,8 @@ private:
 				break;
 			}
 			// fgets always terminates with a null character, even if it manages
-			// to read n-1 chars
+			// to read n-1 chars, and keeps the newline, which is not a byte to convert
+			buffer[strcspn(buffer,"\n")] = '\0';
 			vector<char> hex_values = toByteArray(buffer);
 //			std::cout << "Sending: ";
 //			for ( unsigned int i = 0; i < hex_values.size(); ++i ) {
-- 
2.43.0


From 6161f75fdf2abd8ddace502d58f5a269a2e7f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:13 +0000
Subject: [PATCH 111/119] fix: hex, serial: do not show a failed read's result
 as that many characters

---
 ecl_core_apps/src/utils/hex.cpp    | 4 ++--
 ecl_core_apps/src/utils/serial.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_core_apps/src/utils/hex.cpp b/ecl_core_apps/src/utils/hex.cpp
index b74a1c4..1b0c10c 100644
--- a/ecl_core_apps/src/utils/hex.cpp
+++ b/ecl_core_apps/src/utils/hex.cpp
@@ -132,7 +132,7 @@ public:
 private:
 	void run() {
 		char s[255];
-		unsigned long ch_read;
+		long ch_read;
 
 		while (1) {
 			ch_read = serial->read(s,1);
@@ -142,7 +142,7 @@ private:
 					time.stamp();
 					std::cout << "[" << time << "] ";
 				}
-				for (unsigned int i = 0; i < ch_read; ++i) {
+				for (long i = 0; i < ch_read; ++i) {
 					std::cout << hex_format(s[i]) << " ";
 				}
 				std::cout << std::endl;
diff --git a/ecl_core_apps/src/utils/serial.cpp b/ecl_core_apps/src/utils/serial.cpp
index 2f3e021..539a475 100644
--- a/ecl_core_apps/src/utils/serial.cpp
+++ b/ecl_core_apps/src/utils/serial.cpp
@@ -120,7 +120,7 @@ public:
 private:
 	void run() {
 		char s[255];
-		unsigned long ch_read;
+		long ch_read;
 
 		if ( hex ) { std::cout << "Hex format" << std::endl; } else { std::cout << "Ascii format" << std::endl; }
 
@@ -132,7 +132,7 @@ private:
 					time.stamp();
 					std::cout << "[" << time << "] ";
 				}
-				for (unsigned int i = 0; i < ch_read; ++i) {
+				for (long i = 0; i < ch_read; ++i) {
 					if ( hex ) {
 						std::cout << hex_format(s[i]) << " ";
 					} else {
-- 
2.43.0


From 33464f58b59f1336051580ae429998a5e9f52c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:19 +0000
Subject: [PATCH 112/119] fix: socket_client, socket_server: stamp the line
 after an empty line as well

---
 ecl_core_apps/src/utils/socket_client.cpp | 6 +-----
 ecl_core_apps/src/utils/socket_server.cpp | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/ecl_core_apps/src/utils/socket_client.cpp b/ecl_core_apps/src/utils/socket_client.cpp
index 517b473..fc95343 100644
--- a/ecl_core_apps/src/utils/socket_client.cpp
+++ b/ecl_core_apps/src/utils/socket_client.cpp
@@ -93,11 +93,7 @@ public:
                 }
                 std::cout.flush();
                 if ( timestamps ) {
-                	if ( new_line ) {
-                		new_line = false;
-                	} else if ( c == '\n' ) {
-                		new_line = true;
-                	}
+                	new_line = ( c == '\n' );
                 }
             } else if ( ch_read < 0 ) {
                 if ( ch_read == ConnectionHungUp ) {
diff --git a/ecl_core_apps/src/utils/socket_server.cpp b/ecl_core_apps/src/utils/socket_server.cpp
index 4e03ab1..9aa8460 100644
--- a/ecl_core_apps/src/utils/socket_server.cpp
+++ b/ecl_core_apps/src/utils/socket_server.cpp
@@ -93,11 +93,7 @@ public:
                 }
                 std::cout.flush();
                 if ( timestamps ) {
-                	if ( new_line ) {
-                		new_line = false;
-                	} else if ( c == '\n' ) {
-                		new_line = true;
-                	}
+                	new_line = ( c == '\n' );
                 }
             } else if ( ch_read < 0 ) {
                 if ( ch_read == ConnectionHungUp ) {
-- 
2.43.0


From e75f8d535c5c2dffc3d5d7e6fff462c8335b9c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:40 +0000
Subject: [PATCH 113/119] fix: DocBook output: put OR between the members of
 each exclusive group

---
 ecl_command_line/include/ecl/command_line/docbook_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/docbook_output.hpp b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
index d49bf05..cdda5e1 100644
--- a/ecl_command_line/include/ecl/command_line/docbook_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
@@ -149,7 +149,7 @@ inline void DocBookOutput::usage(CmdLineInterface& _cmd )
 	for ( int i = 0; (unsigned int)i < xorList.size(); i++ )
 	{
 		std::cout << "<itemizedlist>" << std::endl;
-		size_t xlen = xorList.size() - 1;
+		size_t xlen = xorList[i].size() - 1;
 		size_t xcount = 0;
 		for ( ArgVectorIterator it = xorList[i].begin();
 						it != xorList[i].end(); it++, xcount++ )
-- 
2.43.0


From 069b306e2730c86d1363582320282ef7862e0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:24 +0000
Subject: [PATCH 114/119] fix: DocBook output: escape the markup characters of
 every text

---
 .../ecl/command_line/docbook_output.hpp       | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/docbook_output.hpp b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
index cdda5e1..54385fe 100644
--- a/ecl_command_line/include/ecl/command_line/docbook_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
@@ -72,6 +72,7 @@ class DocBookOutput : public CmdLineOutput
 		 */
 		void substituteSpecialChars( std::string& s, char r, std::string& x );
 		void removeChar( std::string& s, char r);
+		std::string escaped( std::string s );
 
 		void printShortArg(Arg* it);
 		void printLongArg(Arg* it);
@@ -86,8 +87,8 @@ inline void DocBookOutput::version(CmdLineInterface& _cmd)
 inline void DocBookOutput::usage(CmdLineInterface& _cmd )
 {
 	std::list<Arg*> argList = _cmd.getArgList();
-	std::string progName = _cmd.getProgramName();
-	std::string version = _cmd.getVersion();
+	std::string progName = escaped(_cmd.getProgramName());
+	std::string version = escaped(_cmd.getVersion());
 	XorHandler xorHandler = _cmd.getXorHandler();
 	std::vector< std::vector<Arg*> > xorList = xorHandler.getXorList();
 
@@ -137,7 +138,7 @@ inline void DocBookOutput::usage(CmdLineInterface& _cmd )
 	std::cout << "<refsect1>" << std::endl;
 	std::cout << "<title>Description</title>" << std::endl;
 	std::cout << "<para>" << std::endl;
-	std::cout << _cmd.getMessage() << std::endl;
+	std::cout << escaped(_cmd.getMessage()) << std::endl;
 	std::cout << "</para>" << std::endl;
 	std::cout << "</refsect1>" << std::endl;
 
@@ -193,14 +194,26 @@ inline void DocBookOutput::substituteSpecialChars( std::string& s,
 				                                   char r,
 												   std::string& x )
 {
-	size_t p;
-	while ( (p = s.find_first_of(r)) != std::string::npos )
+	size_t p = 0;
+	while ( (p = s.find_first_of(r,p)) != std::string::npos )
 	{
 		s.erase(p,1);
 		s.insert(p,x);
+		p += x.length();
 	}
 }
 
+inline std::string DocBookOutput::escaped( std::string s )
+{
+	std::string amp = "&amp;";
+	std::string lt = "&lt;";
+	std::string gt = "&gt;";
+	substituteSpecialChars(s,'&',amp);
+	substituteSpecialChars(s,'<',lt);
+	substituteSpecialChars(s,'>',gt);
+	return s;
+}
+
 inline void DocBookOutput::removeChar( std::string& s, char r)
 {
 	size_t p;
@@ -212,12 +225,7 @@ inline void DocBookOutput::removeChar( std::string& s, char r)
 
 inline void DocBookOutput::printShortArg(Arg* a)
 {
-	std::string lt = "&lt;";
-	std::string gt = "&gt;";
-
-	std::string id = a->shortID();
-	substituteSpecialChars(id,'<',lt);
-	substituteSpecialChars(id,'>',gt);
+	std::string id = escaped(a->shortID());
 	removeChar(id,'[');
 	removeChar(id,']');
 
@@ -239,19 +247,11 @@ inline void DocBookOutput::printShortArg(Arg* a)
 
 inline void DocBookOutput::printLongArg(Arg* a)
 {
-	std::string lt = "&lt;";
-	std::string gt = "&gt;";
-
-	std::string id = a->longID();
-	substituteSpecialChars(id,'<',lt);
-	substituteSpecialChars(id,'>',gt);
+	std::string id = escaped(a->longID());
 	removeChar(id,'[');
 	removeChar(id,']');
 
-	std::string desc = a->getDescription();
-	substituteSpecialChars(desc,'<',lt);
-	substituteSpecialChars(desc,'>',gt);
-
+	std::string desc = escaped(a->getDescription());
 	std::cout << "<simplelist>" << std::endl;
 
 	std::cout << "<member>" << std::endl;
-- 
2.43.0


From b1be368ad9bcce8c1b6caec12659dba9fb2e4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:02 +0000
Subject: [PATCH 115/119] fix: command lines of one process share neither their
 delimiter nor ignoring the rest

---
 ecl_command_line/include/ecl/command_line/arg.hpp      | 5 +++++
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index b401093..872190c 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -163,6 +163,11 @@ class Arg
 		 */
 		static void beginIgnoring() { ignoreRestRef() = true; }
 
+		/**
+		 * No longer ignore arguments (a new command line is about to be parsed).
+		 */
+		static void endIgnoring() { ignoreRestRef() = false; }
+
 		/**
 		 * Whether to ignore the rest.
 		 */
diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 7d9ef1f..6d11de8 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -371,6 +371,10 @@ inline void CmdLine::parse(int argc, char** argv)
 
 	_progName = argv[0];
 
+	// these are shared by all the command lines of the process
+	Arg::setDelimiter( _delimiter );
+	Arg::endIgnoring();
+
 	// this step is necessary so that we have easy access to mutable strings.
 	std::vector<std::string> args;
   	for (int i = 1; i < argc; i++)
-- 
2.43.0


From 1d900cea122627f3776ac30a15131f75e7f02db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 116/119] fix: each command line of a process may have an
 optional positional argument

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp         | 1 +
 .../include/ecl/command_line/optional_unlabeled_tracker.hpp    | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 6d11de8..55a097d 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -293,6 +293,7 @@ inline void CmdLine::_constructor()
 	_output = new StdOutput;
 
 	Arg::setDelimiter( _delimiter );
+	OptionalUnlabeledTracker::reset();
 
 	Visitor* v;
 
diff --git a/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp b/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp
index 7c41215..250a3c0 100644
--- a/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp
+++ b/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp
@@ -28,6 +28,9 @@ class OptionalUnlabeledTracker
 
 		static void gotOptional() { alreadyOptionalRef() = true; }
 
+		/** @brief Start afresh, for the arguments of another command line. **/
+		static void reset() { alreadyOptionalRef() = false; }
+
 		static bool& alreadyOptional() { return alreadyOptionalRef(); }
 
 	private:
-- 
2.43.0


From aad584cb117a0cf6cc30d0e2eb642a3a181c11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:48 +0000
Subject: [PATCH 117/119] fix: formatters of numbers share no buffer, so
 threads may print at once

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 4 ++--
 ecl_formatters/include/ecl/formatters/number.hpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 101e55e..cd04d02 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -384,7 +384,7 @@ template <typename Number>
   template <typename OutputStream>
 void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
 {
-    static char format_specifier[6] = "%.xff";
+    char format_specifier[6] = "%.xff";
     if ( *precision_ < 10 ) {
         format_specifier[2] = '0'+*precision_;
         format_specifier[3] = 'f';
@@ -399,7 +399,7 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[4] = 'f';
     }
     static const int buffer_size = 340; // sign, 309 digits, point and 20 decimals of the largest double
-    static char buffer[buffer_size];
+    char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
 
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 3085505..fab1bfd 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -270,7 +270,8 @@ template <typename Number>
   template <typename OutputStream>
 void FormatNumber<Number>::formatDec(OutputStream &ostream) const
 {
-    static ecl::Converter<char*> convert;
+    char buffer[32]; // sign and 20 digits of the largest integral
+    ecl::Converter<char*> convert(buffer, buffer + sizeof(buffer) - 1);
     char *s = convert(value_);
     int size = strlen(s);
     prePad(*width_ - size,ostream);
-- 
2.43.0


From 3355a94619427331036b374ebbd1d7005a058e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:01 +0000
Subject: [PATCH 118/119] fix: each argument exception tells its own text

---
 .../include/ecl/command_line/arg_exception.hpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg_exception.hpp b/ecl_command_line/include/ecl/command_line/arg_exception.hpp
index 3174b17..bbf5de6 100644
--- a/ecl_command_line/include/ecl/command_line/arg_exception.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg_exception.hpp
@@ -44,7 +44,8 @@ class ArgException : public std::exception
 			: std::exception(),
 			  _errorText(text),
 			  _argId( id ),
-			  _typeDescription(td)
+			  _typeDescription(td),
+			  _what( id + " -- " + text )
 		{ }
 
 		/**
@@ -73,9 +74,7 @@ class ArgException : public std::exception
 		 */
 		const char* what() const throw()
 		{
-			static std::string ex;
-			ex = _argId + " -- " + _errorText;
-			return ex.c_str();
+			return _what.c_str();
 		}
 
 		/**
@@ -106,6 +105,11 @@ class ArgException : public std::exception
 		 */
 		std::string _typeDescription;
 
+		/**
+		 * The arg id and error text, as told by what().
+		 */
+		std::string _what;
+
 };
 
 /**
-- 
2.43.0


From 5051cc78fd87660883c022c400e779fe5363bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:32 +0000
Subject: [PATCH 119/119] fix: Pose2D of any float type is built from values of
 that type

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 548c373..ca7b97f 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -130,7 +130,7 @@ public:
    * @param y: y-translation
    * @param h: heading (radians)
    */
-  Pose2D(const float& x, const float& y, const float& h) {
+  Pose2D(const Float& x, const Float& y, const Float& h) {
     xyh << x, y, h;
   }
 
-- 
2.43.0

