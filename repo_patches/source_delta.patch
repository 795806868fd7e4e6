From 7efc6ab0461fbce7b193e35e5ca5d10890f9daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 01/17] fix: uint128_t::to_string no longer drops digits when
 memory runs out or groups them by locale

---
 include/ipaddress/uint128.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..56330cd 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -325,6 +325,8 @@ public:
     IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE std::string to_string(format fmt = format::decimal) const {
         if (_upper == 0) {
             std::ostringstream ss;
+            ss.exceptions(std::ios_base::badbit);
+            ss.imbue(std::locale::classic());
             switch (fmt) {
                 case format::octal:
                     ss << std::oct;
@@ -1516,6 +1518,8 @@ private:
 
     IPADDRESS_NODISCARD static IPADDRESS_FORCE_INLINE std::string uint128_to_dec_str(uint128_t value) {
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
+        ss.imbue(std::locale::classic());
 
         do {
             const auto q = value / 10;
@@ -1533,6 +1537,8 @@ private:
 
     IPADDRESS_NODISCARD static IPADDRESS_FORCE_INLINE std::string uint128_to_oct_str(uint128_t value) {
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
+        ss.imbue(std::locale::classic());
 
         do {
             const auto q = value / 8;
@@ -1552,6 +1558,8 @@ private:
         constexpr char digits[] = "0123456789abcdef";
 
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
+        ss.imbue(std::locale::classic());
         do {
             const auto q = value / 16;
             const auto r = value - q * 16;
-- 
2.43.0


From 898d9dbc0286035dd35da38ff974e17ddfaedb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 02/17] fix: error messages are no longer cut short when memory
 runs out or altered by the global locale

---
 include/ipaddress/errors.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ipaddress/errors.hpp b/include/ipaddress/errors.hpp
index e5e3bdc..a100356 100644
--- a/include/ipaddress/errors.hpp
+++ b/include/ipaddress/errors.hpp
@@ -161,6 +161,8 @@ private:
     template <typename... Args>
     static std::string concatenate(const Args&... args) {
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
+        ss.imbue(std::locale::classic());
         concat(ss, args...);
         return ss.str();
     }
-- 
2.43.0


From eeeb1e088c14539d840091ff8ca1fb6fe9db8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 03/17] fix: subnets and address_exclude report no_error on
 success whatever the code held before

---
 include/ipaddress/ip-network-base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..8050c41 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -938,6 +938,8 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
@@ -1020,6 +1022,8 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
-- 
2.43.0


From ec59b466f2fef55e29e43a63458c34f6c6275705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 04/17] fix: ip_address::set_scope_id with an error code
 reports no_error on an IPv4 address

---
 include/ipaddress/ip-any-address.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 32179d6..0095307 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -854,6 +854,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -875,6 +876,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -893,6 +895,7 @@ public:
      * @remark If scope is disabled in settings (`IPADDRESS_IPV6_SCOPE_MAX_LENGTH == 0`) then this call will have no effect.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -916,6 +919,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -937,6 +941,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1087,6 +1092,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1099,6 +1105,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1111,6 +1118,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1123,6 +1131,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
-- 
2.43.0


From d12651091946005578bacf6c86e7f406e825c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 05/17] fix: supernet up to prefix length 0 no longer shifts by
 the full width and terminates

---
 include/ipaddress/ip-network-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 8050c41..1fdb87f 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1131,7 +1131,7 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
+        const auto address = ip_address_type::from_uint(network_address().to_uint() & ip_address_type::ip_from_prefix(new_prefix).to_uint());
         return ip_network_base<Base>::from_address(address, new_prefix);
     }
 
-- 
2.43.0


From 37e122c4e9f61d4bd836315f7e1126327e479676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 06/17] fix: IPv6 texts with a dotted quad and a long scope are
 no longer cut short in networks

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..7069dc2 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -46,7 +46,7 @@ public:
 
     static constexpr ip_version base_version = ip_version::V6;
     static constexpr size_t base_size = 16;
-    static constexpr size_t base_max_string_len = 41 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
+    static constexpr size_t base_max_string_len = 47 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
     static constexpr size_t base_max_prefixlen = base_size * 8;
 
     /**
-- 
2.43.0


From 4668d6613f1dcee289c9ff8a1f88171bddcdc6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 07/17] fix: the netmask 0.0.0.0 no longer shifts by a negative
 count

---
 include/ipaddress/base-v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..2244fc4 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -243,7 +243,7 @@ private:
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-        auto all_ones = (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1); // NOLINT
+        auto all_ones = prefixlen != 0 ? (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1) : 0; // NOLINT
         if (leading_ones != all_ones) {
             code = error_code::netmask_pattern_mixes_zeroes_and_ones;
             return 0;
-- 
2.43.0


From 6498e4d7b9ee709b478c9712eb25470ac80a824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 08/17] fix: hosts of a network at the end of the address space
 end

---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..e2a4357 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -891,7 +891,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -901,7 +901,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
-- 
2.43.0


From 5b2aed7cb741136c9466f4094c1e2e2b40aa55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 09/17] fix: subnets of a network at the end of the address
 space end

---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..5f3680c 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -736,7 +736,7 @@ public:
         const auto end = ip_address_type::from_uint(end_uint + 1);
         const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
         _size = (end_uint - begin_uint) / step + 1;
     }
 
-- 
2.43.0


From a89337cd16224dc2b9331182e64dbd42a155a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 10/17] fix: subnets rejects a prefix length difference whose
 sum overflows

---
 include/ipaddress/ip-network-base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 1fdb87f..0082061 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1042,13 +1042,13 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        auto new_prefix = prefixlen() + prefixlen_diff;
+
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From 97d7d2e1f57d880bf42cf59f403f3900ce128c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 11/17] fix: subnets of the whole address space with the same
 prefix length no longer divide by zero

---
 include/ipaddress/ip-network-iterator.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 5f3680c..6f4309a 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -405,7 +405,7 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset += _step;
-        if (result._it._offset < old) {
+        if (result._it._offset <= old) {
             result._it._carry = 1 - result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
@@ -417,7 +417,7 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset -= _step;
-        if (result._it._offset > old) {
+        if (result._it._offset >= old) {
         result._it._carry = 1 - result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
@@ -427,11 +427,17 @@ private:
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
         _it += _step * n;
+        if (_step == 0 && (n & 1) != 0) { // one step spans the whole address space
+            _it._carry = 1 - _it._carry;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
         _it -= _step * n;
+        if (_step == 0 && (n & 1) != 0) { // one step spans the whole address space
+            _it._carry = 1 - _it._carry;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
@@ -737,7 +743,7 @@ public:
         const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
         _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _size = step != 0 ? (end_uint - begin_uint) / step + 1 : 1;
     }
 
     /**
-- 
2.43.0


From 583bdee1ce21197974cbd00cc4507ee4bbb7c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 12/17] fix: the distance between subnets of the whole address
 space no longer divides by zero

---
 include/ipaddress/ip-network-iterator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 6f4309a..d26f1d6 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,6 +67,9 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
+        if (_step == 0) { // one step spans the whole address space
+            return uint_type(_it._carry != other._it._carry ? 1 : 0);
+        }
         return _it.uint_diff(other._it) / _step;
     }
 
-- 
2.43.0


From 3a89267162756685815f73387e97caa7f1c88110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:21 +0000
Subject: [PATCH 13/17] fix: the C++11 tables of special networks exist before
 static objects that use them

---
 include/ipaddress/ip-networks.hpp | 124 +++++++++++++-----------------
 1 file changed, 54 insertions(+), 70 deletions(-)

diff --git a/include/ipaddress/ip-networks.hpp b/include/ipaddress/ip-networks.hpp
index c3e5344..6d808be 100644
--- a/include/ipaddress/ip-networks.hpp
+++ b/include/ipaddress/ip-networks.hpp
@@ -22,35 +22,13 @@ namespace internal {
 
 template <typename>
 struct networks {
-#if __cpp_constexpr < 201304L
-    static const ipv4_network ipv4_private_networks[];
-    static const ipv6_network ipv6_private_networks[];
-
-    static const ipv4_network ipv4_is_public_network;
-
-    static const ipv4_network ipv4_reserved_network;
-    static const ipv6_network ipv6_reserved_networks[];
-
-    static const ipv4_network ipv4_is_multicast;
-    static const ipv6_network ipv6_is_multicast;
-
-    static const ipv4_network ipv4_is_loopback;
-
-    static const ipv4_network ipv4_is_link_local;
-    static const ipv6_network ipv6_is_link_local;
-
-    static const ipv6_network ipv6_is_site_local;
-};
-#endif
-
 // Private networks
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
-    ipv4_private_networks[] = {
+    ipv4_private_networks[14] = {
         ipv4_network::parse("0.0.0.0/8"),
         ipv4_network::parse("10.0.0.0/8"),
         ipv4_network::parse("127.0.0.0/8"),
@@ -70,10 +48,9 @@ template <typename T> const ipv4_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
-    ipv6_private_networks[] = {
+    ipv6_private_networks[10] = {
         ipv6_network::parse("::1/128"),
         ipv6_network::parse("::/128"),
         ipv6_network::parse("::ffff:0:0/96"),
@@ -90,27 +67,24 @@ template <typename T> const ipv6_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_public_network = ipv4_network::parse("100.64.0.0/10");
 
 // Reserved networks
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_reserved_network = ipv4_network::parse("240.0.0.0/4");
 
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
-    ipv6_reserved_networks[] = {
+    ipv6_reserved_networks[15] = {
         ipv6_network::parse("::/8"),
         ipv6_network::parse("100::/8"),
         ipv6_network::parse("200::/7"),
@@ -132,62 +106,57 @@ template <typename T> const ipv6_network networks<T>::
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_multicast = ipv4_network::parse("224.0.0.0/4");
 
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv6_is_multicast = ipv6_network::parse("ff00::/8");
 
 // Loopback networks
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_loopback = ipv4_network::parse("127.0.0.0/8");
 
 // Link local networks
 #if __cpp_constexpr >= 201304L
 static constexpr ipv4_network
 #else
-template <typename T> const ipv4_network networks<T>::
+const ipv4_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv4_is_link_local = ipv4_network::parse("169.254.0.0/16");
 
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv6_is_link_local = ipv6_network::parse("fe80::/10");
 
 // Site local networks
 #if __cpp_constexpr >= 201304L
 static constexpr ipv6_network
 #else
-template <typename T> const ipv6_network networks<T>::
+const ipv6_network
 #endif
-    // NOLINTNEXTLINE(cert-err58-cpp): for C++11
     ipv6_is_site_local = ipv6_network::parse("fec0::/10");
 
-#if __cpp_constexpr >= 201304L
 };
 
+#if __cpp_constexpr >= 201304L
+
 template <typename T>
-constexpr ipv4_network networks<T>::ipv4_private_networks[];
+constexpr ipv4_network networks<T>::ipv4_private_networks[14];
 
 template <typename T>
-constexpr ipv6_network networks<T>::ipv6_private_networks[];
+constexpr ipv6_network networks<T>::ipv6_private_networks[10];
 
 template <typename T>
 constexpr ipv4_network networks<T>::ipv4_is_public_network;
@@ -196,7 +165,7 @@ template <typename T>
 constexpr ipv4_network networks<T>::ipv4_reserved_network;
 
 template <typename T>
-constexpr ipv6_network networks<T>::ipv6_reserved_networks[];
+constexpr ipv6_network networks<T>::ipv6_reserved_networks[15];
 
 template <typename T>
 constexpr ipv4_network networks<T>::ipv4_is_multicast;
@@ -218,7 +187,22 @@ constexpr ipv6_network networks<T>::ipv6_is_site_local;
 
 #endif
 
-using nets = networks<int>;
+#if __cpp_constexpr >= 201304L
+
+IPADDRESS_NODISCARD constexpr IPADDRESS_FORCE_INLINE networks<int> nets() IPADDRESS_NOEXCEPT {
+    return networks<int>();
+}
+
+#else
+
+// Before C++14 the networks are not constants and are created on first use, since this
+// may happen during the initialization of static objects of other translation units.
+IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE const networks<int>& nets() IPADDRESS_NOEXCEPT {
+    static const networks<int> instance{};
+    return instance;
+}
+
+#endif
 
 template <typename T, int N>
 IPADDRESS_NODISCARD constexpr IPADDRESS_FORCE_INLINE int array_size(const T (&)[N]) IPADDRESS_NOEXCEPT {
@@ -233,9 +217,9 @@ struct props<ipv4_network> {
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_private(const ipv4_network& net) IPADDRESS_NOEXCEPT {
         const auto& address = net.network_address();
         const auto broadcast = net.broadcast_address();
-        constexpr auto count = array_size(nets::ipv4_private_networks);
+        const auto count = array_size(nets().ipv4_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv4_private_networks[i].contains(address) && nets::ipv4_private_networks[i].contains(broadcast)) {
+            if (nets().ipv4_private_networks[i].contains(address) && nets().ipv4_private_networks[i].contains(broadcast)) {
                 return true;
             }
         }
@@ -243,7 +227,7 @@ struct props<ipv4_network> {
     }
     
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_global(const ipv4_network& net) IPADDRESS_NOEXCEPT {
-        const auto& network = nets::ipv4_is_public_network;
+        const auto& network = nets().ipv4_is_public_network;
         const auto& address = net.network_address();
         const auto broadcast = net.broadcast_address();
         return !(network.contains(address) && network.contains(broadcast)) && !is_private(net);
@@ -255,9 +239,9 @@ struct props<ipv6_network> {
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_private(const ipv6_network& net) IPADDRESS_NOEXCEPT {
         const auto& address = net.network_address();
         const auto broadcast = net.broadcast_address();
-        constexpr auto count = array_size(nets::ipv6_private_networks);
+        const auto count = array_size(nets().ipv6_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv6_private_networks[i].contains(address) && nets::ipv6_private_networks[i].contains(broadcast)) {
+            if (nets().ipv6_private_networks[i].contains(address) && nets().ipv6_private_networks[i].contains(broadcast)) {
                 return true;
             }
         }
@@ -272,9 +256,9 @@ struct props<ipv6_network> {
 template <>
 struct props<ipv4_address> {
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_private(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        constexpr auto count = array_size(nets::ipv4_private_networks);
+        const auto count = array_size(nets().ipv4_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv4_private_networks[i].contains(ip)) {
+            if (nets().ipv4_private_networks[i].contains(ip)) {
                 return true;
             }
         }
@@ -282,23 +266,23 @@ struct props<ipv4_address> {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_global(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return !nets::ipv4_is_public_network.contains(ip) && !is_private(ip);
+        return !nets().ipv4_is_public_network.contains(ip) && !is_private(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_multicast(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_is_multicast.contains(ip);
+        return nets().ipv4_is_multicast.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_reserved(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_reserved_network.contains(ip);
+        return nets().ipv4_reserved_network.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_loopback(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_is_loopback.contains(ip);
+        return nets().ipv4_is_loopback.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_link_local(const ipv4_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv4_is_link_local.contains(ip);
+        return nets().ipv4_is_link_local.contains(ip);
     }
 };
 
@@ -311,9 +295,9 @@ struct props<ipv6_address> {
             return ipv4->is_private();
         }
 
-        constexpr auto count = array_size(nets::ipv6_private_networks);
+        const auto count = array_size(nets().ipv6_private_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv6_private_networks[i].contains(ip)) {
+            if (nets().ipv6_private_networks[i].contains(ip)) {
                 return true;
             }
         }
@@ -326,13 +310,13 @@ struct props<ipv6_address> {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_multicast(const ipv6_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv6_is_multicast.contains(ip);
+        return nets().ipv6_is_multicast.contains(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_reserved(const ipv6_address& ip) IPADDRESS_NOEXCEPT {
-        constexpr auto count = array_size(nets::ipv6_reserved_networks);
+        const auto count = array_size(nets().ipv6_reserved_networks);
         for (int i = 0; i < count; ++i) {
-            if (nets::ipv6_reserved_networks[i].contains(ip)) {
+            if (nets().ipv6_reserved_networks[i].contains(ip)) {
                 return true;
             }
         }
@@ -348,7 +332,7 @@ struct props<ipv6_address> {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_link_local(const ipv6_address& ip) IPADDRESS_NOEXCEPT {
-        return nets::ipv6_is_link_local.contains(ip);
+        return nets().ipv6_is_link_local.contains(ip);
     }
 };
 
@@ -396,7 +380,7 @@ IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool ip_address_b
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool ipv6_address_base::is_site_local() const IPADDRESS_NOEXCEPT {
     ipv6_address address(bytes());
-    return internal::nets::ipv6_is_site_local.contains(address);
+    return internal::nets().ipv6_is_site_local.contains(address);
 }
 
 } // namespace IPADDRESS_NAMESPACE
-- 
2.43.0


From 05aa6e7d4d36f28d200d6df999aad9408c2ae90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:40 +0000
Subject: [PATCH 14/17] fix: an exclusion lost its member 0.0.0.0/32 or ::/128,
 taken for the end

---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index d26f1d6..c30cac0 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -584,7 +584,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _current == other._current && _other == other._other;
     }
 
     /**
-- 
2.43.0


From 96c24328d66fb9649d63679e78289e0c8d7fa4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:55 +0000
Subject: [PATCH 15/17] fix: signed jumps and differences of iterators: a
 negative jump took the iterator to a place unequal to itself, differences of
 IPv4 and subnet iterators were wrong

---
 include/ipaddress/ip-address-iterator.hpp | 6 +++---
 include/ipaddress/ip-any-iterator.hpp     | 4 ++--
 include/ipaddress/ip-network-iterator.hpp | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index e2a4357..fd65b7a 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type(uint64_t(0) - uint64_t(n))) : add(uint_type(uint64_t(n)));
         return *this;
     }
 
@@ -581,7 +581,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type(uint64_t(0) - uint64_t(n))) : sub(uint_type(uint64_t(n)));
         return *this;
     }
 
@@ -689,7 +689,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_offset - other._offset);
+        return *this < other ? -difference_type(other._offset - _offset) : difference_type(_offset - other._offset);
     }
 
     /**
diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index a4fa14b..5bd30f3 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -177,7 +177,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type(uint64_t(0) - uint64_t(n))) : add(uint_type(uint64_t(n)));
         return *this;
     }
 
@@ -203,7 +203,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type(uint64_t(0) - uint64_t(n))) : sub(uint_type(uint64_t(n)));
         return *this;
     }
 
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index c30cac0..488b9b4 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -172,7 +172,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type(uint64_t(0) - uint64_t(n))) : add(uint_type(uint64_t(n)));
         return *this;
     }
 
@@ -198,7 +198,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type(uint64_t(0) - uint64_t(n))) : sub(uint_type(uint64_t(n)));
         return *this;
     }
 
@@ -306,7 +306,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        return *this < other ? -difference_type(other.uint_diff(*this)) : difference_type(uint_diff(other));
     }
 
     /**
-- 
2.43.0


From c2952c9dfbc8d58aca661ada3b24e8a84d2bbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:55 +0000
Subject: [PATCH 16/17] fix: iterators across the whole address space: the
 carry of positions below the start, of jumps and of differences

---
 include/ipaddress/ip-address-iterator.hpp |  8 ++++----
 include/ipaddress/ip-network-iterator.hpp | 25 +++++++++++++----------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index fd65b7a..0971b47 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -792,7 +792,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            ++result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,7 +803,7 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            --result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -814,7 +814,7 @@ private:
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                ++_carry;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +825,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                --_carry;
             }
             _current = value_type::from_uint(_offset);
         }
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 488b9b4..e68dec7 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,10 +67,11 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        if (_step == 0) { // one step spans the whole address space
-            return uint_type(_it._carry != other._it._carry ? 1 : 0);
+        const uint_type diff = _it.uint_diff(other._it);
+        if (diff == 0) { // equal, or apart by the whole address space
+            return _it._carry != other._it._carry ? (uint_type(0) - _step) / (_step == 0 ? uint_type(1) : _step) + 1 : diff;
         }
-        return _it.uint_diff(other._it) / _step;
+        return diff / _step;
     }
 
     /**
@@ -409,7 +410,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset += _step;
         if (result._it._offset <= old) {
-            result._it._carry = 1 - result._it._carry;
+            ++result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -421,7 +422,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset -= _step;
         if (result._it._offset >= old) {
-        result._it._carry = 1 - result._it._carry;
+            --result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -429,17 +430,19 @@ private:
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it += _step * n;
-        if (_step == 0 && (n & 1) != 0) { // one step spans the whole address space
-            _it._carry = 1 - _it._carry;
+        const uint_type jump = _step * n;
+        _it += jump;
+        if (jump == 0 && n != 0) { // the jump spans the whole address space
+            ++_it._carry;
         }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it -= _step * n;
-        if (_step == 0 && (n & 1) != 0) { // one step spans the whole address space
-            _it._carry = 1 - _it._carry;
+        const uint_type jump = _step * n;
+        _it -= jump;
+        if (jump == 0 && n != 0) { // the jump spans the whole address space
+            --_it._carry;
         }
         _current = value_type::from_address(*_it, _prefixlen);
     }
-- 
2.43.0


From 0b84a7b44af7ae16b520d197a999a0648f3284ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:43 +0000
Subject: [PATCH 17/17] fix: order of IPv6 addresses with scope ids before
 C++20: an address with the smaller scope id was less than any other

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..6e9414c 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -811,7 +811,7 @@ protected:
         return lhs._data.bytes < rhs._data.bytes 
         
         #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+            || (lhs._data.bytes == rhs._data.bytes && lhs._data.scope_id.compare(rhs._data.scope_id) < 0)
         #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
             ;
     }
-- 
2.43.0

