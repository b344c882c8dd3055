From 8efba5844186275c03c176698f1eb77edd259ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 01/65] fix: carry the TH bit when copying and comparing TLPs

---
 cocotbext/pcie/core/tlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index f5cd6ff..c668006 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -219,6 +219,7 @@ class Tlp:
             self.type = tlp.type
             self.tc = tlp.tc
             self.ln = tlp.ln
+            self.th = tlp.th
             self.td = tlp.td
             self.ep = tlp.ep
             self.attr = tlp.attr
@@ -620,6 +621,7 @@ class Tlp:
                 self.type == other.type and
                 self.tc == other.tc and
                 self.ln == other.ln and
+                self.th == other.th and
                 self.td == other.td and
                 self.ep == other.ep and
                 self.attr == other.attr and
-- 
2.43.0


From c1cdee93bdb86f809c5fc0ea2a9cce10091433eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 02/65] fix: return bytes from Tlp.__bytes__

---
 cocotbext/pcie/core/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index c668006..c9cbda4 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -669,4 +669,4 @@ class Tlp:
         )
 
     def __bytes__(self):
-        return self.pack()
+        return bytes(self.pack())
-- 
2.43.0


From cbb223b8633945cdfd4af825f43cba81f988d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 03/65] fix: keep the byte offset in Tlp.get_lower_address

---
 cocotbext/pcie/core/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index c9cbda4..6d66a45 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -414,7 +414,7 @@ class Tlp:
 
     def get_lower_address(self):
         """Compute lower address field from address and first byte enable"""
-        return self.address & 0x7c + self.get_first_be_offset()
+        return (self.address & 0x7c) + self.get_first_be_offset()
 
     def has_data(self):
         """Return true if TLP has payload data"""
-- 
2.43.0


From f2a790c369ae1a49296ca18be879a23316a5b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 04/65] fix: validate payload length range and IO/configuration
 requests in Tlp.check

---
 cocotbext/pcie/core/tlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 6d66a45..2167ada 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -282,7 +282,7 @@ class Tlp:
             if self.length*4 != len(self.data):
                 print(f"TLP validation failed, length field does not match data: {self!r}")
                 ret = False
-            if 0 > self.length > 1024:
+            if not 0 < self.length <= 1024:
                 print(f"TLP validation failed, length out of range: {self!r}")
                 ret = False
         if self.fmt_type in {TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_READ_LOCKED,
@@ -290,7 +290,7 @@ class Tlp:
             if self.length*4 > 0x1000 - (self.address & 0xfff):
                 print(f"TLP validation failed, request crosses 4K boundary: {self!r}")
                 ret = False
-        if self.fmt_type == {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
+        if self.fmt_type in {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
                 TlpType.CFG_WRITE_1, TlpType.IO_READ, TlpType.IO_WRITE}:
             if self.length != 1:
                 print(f"TLP validation failed, invalid length for IO or configuration request: {self!r}")
-- 
2.43.0


From 72767c84d11ae1bfcfd558a283bf11b880558a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 05/65] fix: set the byte count in completions for
 configuration writes

---
 cocotbext/pcie/core/function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index aa0e251..231715f 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -588,6 +588,7 @@ class Function:
 
             # prepare completion TLP
             cpl = Tlp.create_completion_for_tlp(tlp, self.pcie_id)
+            cpl.byte_count = 4
 
             self.log.debug("Completion: %r", cpl)
             await self.upstream_send(cpl)
-- 
2.43.0


From f3cdba19cd097a4395ef6ed0a47cd29d91049bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 06/65] fix: discard completions for which no request is
 outstanding

---
 cocotbext/pcie/core/function.py | 8 ++++++++
 cocotbext/pcie/core/rc.py       | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 231715f..a25b6c4 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -448,6 +448,11 @@ class Function:
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
             # completion
+            if tlp.tag >= len(self.tag_active) or not self.tag_active[tlp.tag]:
+                # no request outstanding for this tag (timed out or already completed)
+                self.log.warning("Unexpected completion: no outstanding request for tag: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -502,6 +507,9 @@ class Function:
     def release_tag(self, tag):
         assert self.tag_active[tag]
         self.tag_active[tag] = False
+        while not self.rx_cpl_queues[tag].empty():
+            # discard excess completions
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_release.set()
 
     async def perform_posted_operation(self, req):
diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 8c905ca..4b54fe7 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -207,6 +207,11 @@ class RootComplex(Switch):
 
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+            if tlp.tag >= len(self.tag_active) or not self.tag_active[tlp.tag]:
+                # no request outstanding for this tag (timed out or already completed)
+                self.log.warning("Unexpected completion: no outstanding request for tag: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -259,6 +264,9 @@ class RootComplex(Switch):
     def release_tag(self, tag):
         assert self.tag_active[tag]
         self.tag_active[tag] = False
+        while not self.rx_cpl_queues[tag].empty():
+            # discard excess completions
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_release.set()
 
     async def perform_posted_operation(self, req):
-- 
2.43.0


From 0d36845ff40b839744d24860edfd4f99e06afae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 07/65] fix: do not send requests that no downstream port
 claims back downstream

---
 cocotbext/pcie/core/rc.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 4b54fe7..527e5f7 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -309,11 +309,18 @@ class RootComplex(Switch):
 
         return completions
 
+    def find_local_regions(self, address_space, tlp):
+        # the windows of the downstream ports do not count: requests that a port
+        # claims have already been routed to it, and sending the others back
+        # downstream while blocking the upstream path can deadlock
+        return [r for r in address_space.find_regions(tlp.address, tlp.length*4)
+            if r[3] is not self.mem_region and r[3] is not self.io_region]
+
     async def handle_io_read_tlp(self, tlp):
         self.log.info("IO read, address 0x%08x, BE 0x%x, tag %d",
                 tlp.address, tlp.first_be, tlp.tag)
 
-        if not self.io_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_local_regions(self.io_address_space, tlp):
             self.log.warning("IO request did not match any regions: %r", tlp)
 
             # Unsupported request
@@ -375,7 +382,7 @@ class RootComplex(Switch):
         self.log.info("IO write, address 0x%08x, BE 0x%x, tag %d, data 0x%08x",
                 tlp.address, tlp.first_be, tlp.tag, int.from_bytes(tlp.get_data(), 'little'))
 
-        if not self.io_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_local_regions(self.io_address_space, tlp):
             self.log.warning("IO request did not match any regions: %r", tlp)
 
             # Unsupported request
@@ -435,7 +442,7 @@ class RootComplex(Switch):
         self.log.info("Memory read, address 0x%08x, length %d, BE 0x%x/0x%x, tag %d",
                 tlp.address, tlp.length, tlp.first_be, tlp.last_be, tlp.tag)
 
-        if not self.mem_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_local_regions(self.mem_address_space, tlp):
             self.log.warning("Memory request did not match any regions: %r", tlp)
 
             # Unsupported request
@@ -504,7 +511,7 @@ class RootComplex(Switch):
         self.log.info("Memory write, address 0x%08x, length %d, BE 0x%x/0x%x",
                 tlp.address, tlp.length, tlp.first_be, tlp.last_be)
 
-        if not self.mem_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_local_regions(self.mem_address_space, tlp):
             self.log.warning("Memory request did not match any regions: %r", tlp)
             return
 
-- 
2.43.0


From 384158ca5187506ccf636e6aa1a6a75a1f047ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 08/65] fix: restore the upper half of a 64-bit BAR after
 probing its size

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index dd9ccc0..32d47a3 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -1101,7 +1101,7 @@ class PciDevice:
                     raise Exception("Invalid BAR configuration")
 
                 # read adjacent BAR
-                orig_bar2 = await self.config_read_dword(0x010+bar*4)
+                orig_bar2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, 0xffffffff)
                 val2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, orig_bar2)
-- 
2.43.0


From 1672ea50f65ca84c177c7e0f056e1f680b4aeb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 09/65] fix: align the base of bridge windows to what the
 bridge registers can hold

---
 cocotbext/pcie/core/pci.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 32d47a3..806a9fa 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -234,11 +234,12 @@ class PciBus:
             await dev.assign_resources()
 
             if dev.subordinate:
-                dev.io_base = self.bridge.io_limit
+                # align bases against bridge registers
+                dev.io_base = align(self.bridge.io_limit, 0xfff)
                 dev.io_limit = dev.io_base
-                dev.mem_base = self.bridge.mem_limit
+                dev.mem_base = align(self.bridge.mem_limit, 0xfffff)
                 dev.mem_limit = dev.mem_base
-                dev.prefetchable_mem_base = self.bridge.prefetchable_mem_limit
+                dev.prefetchable_mem_base = align(self.bridge.prefetchable_mem_limit, 0xfffff)
                 dev.prefetchable_mem_limit = dev.prefetchable_mem_base
 
                 await dev.subordinate.assign_resources()
-- 
2.43.0


From 75b2e710e36f54ef36d9f28d5e0b132265c4e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 10/65] fix: match the addresses of 64-bit BARs of 4 GB and
 larger

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index a25b6c4..0f14828 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -362,7 +362,7 @@ class Function:
             orig_bar = bar
             bar += 1
 
-            if bar_mask == 0:
+            if bar_mask == 0 and not bar_val & 4:
                 # unimplemented BAR
                 continue
 
-- 
2.43.0


From 77bfe700d4c5d9388d8524041e8ede75d397e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 11/65] fix: 32-bit BARs do not match addresses above 4 GB

---
 cocotbext/pcie/core/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 0f14828..8bb4eec 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -385,6 +385,9 @@ class Function:
                     bar_mask |= self.bar_mask[bar] << 32
 
                     bar += 1
+                else:
+                    # 32 bit BAR, upper half of address must be zero
+                    bar_mask |= 0xffffffff << 32
 
                 if not io and (addr ^ bar_val) & bar_mask == 0:
                     return (orig_bar, addr & ~bar_mask)
-- 
2.43.0


From 81c1d5be20489985ee7034aab1ef83465277741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 12/65] fix: reserved MSI capability registers read as zero

---
 cocotbext/pcie/core/caps/msi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index ec91226..77473e8 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -135,6 +135,8 @@ class MsiCapability(PciCap):
         elif reg == (5 if self.msi_64bit_address_capable else 4) and self.msi_per_vector_mask_capable:
             # Pending bits
             return self.msi_pending_bits & 0xffffffff
+        else:
+            return 0
 
     async def _write_register(self, reg, data, mask):
         if reg == 0:
-- 
2.43.0


From 1793e0aebb3745a9c7150efa3c1fe6cd1f59c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 13/65] fix: write MSI extended message data enable from its
 own bit

---
 cocotbext/pcie/core/caps/msi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index 77473e8..c34e964 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -144,8 +144,9 @@ class MsiCapability(PciCap):
             if mask & 0x4:
                 self.msi_enable = bool(data & 1 << 16)
                 self.msi_multiple_message_enable = (data >> 20) & 0x7
+            if mask & 0x8:
                 if self.msi_extended_message_data_capable:
-                    self.msi_extended_message_data_enable = bool(data & 1 << 16)
+                    self.msi_extended_message_data_enable = bool(data & 1 << 26)
         elif reg == 1:
             # Message address
             self.msi_message_address = byte_mask_update(self.msi_message_address, mask, data & 0xfffffffc)
-- 
2.43.0


From 4f64cbf006c3fd63edf490818151ed0b9c925136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 14/65] fix: PCIe link capabilities fields were shifted out of
 the register

---
 cocotbext/pcie/core/caps/pcie.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 1fb910d..dd9acf3 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -295,10 +295,10 @@ class PcieCapability(PciCap):
         elif reg == 3:
             # Link capabilities
             val = self.max_link_speed & 0xf
-            val |= (self.max_link_width & 0x3f) >> 4
-            val |= (self.aspm_support & 0x3) >> 10
-            val |= (self.l0s_exit_latency & 0x7) >> 12
-            val |= (self.l1_exit_latency & 0x7) >> 15
+            val |= (self.max_link_width & 0x3f) << 4
+            val |= (self.aspm_support & 0x3) << 10
+            val |= (self.l0s_exit_latency & 0x7) << 12
+            val |= (self.l1_exit_latency & 0x7) << 15
             val |= bool(self.clock_power_management) << 18
             val |= bool(self.surprise_down_error_reporting_capability) << 19
             val |= bool(self.data_link_layer_link_active_reporting_capable) << 20
-- 
2.43.0


From 0aeb1e36b47381f4f01222f1d5b46b4df499ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 15/65] fix: report the configured PM and PCIe capability
 versions

---
 cocotbext/pcie/core/caps/pcie.py | 2 +-
 cocotbext/pcie/core/caps/pm.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index dd9acf3..7d83a7a 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -253,7 +253,7 @@ class PcieCapability(PciCap):
     async def _read_register(self, reg):
         if reg == 0:
             # PCIe capabilities
-            val = 2 << 16
+            val = (self.pcie_capability_version & 0xf) << 16
             val |= (self.pcie_device_type & 0xf) << 20
             val |= bool(self.pcie_slot_implemented) << 24
             val |= (self.interrupt_message_number & 0x1f) << 25
diff --git a/cocotbext/pcie/core/caps/pm.py b/cocotbext/pcie/core/caps/pm.py
index 1885be9..af1ccc1 100644
--- a/cocotbext/pcie/core/caps/pm.py
+++ b/cocotbext/pcie/core/caps/pm.py
@@ -65,7 +65,7 @@ class PmCapability(PciCap):
     async def _read_register(self, reg):
         if reg == 0:
             # Power management capabilities
-            val = 3 << 16
+            val = (self.version & 0x7) << 16
             val |= bool(self.pme_clock) << 19
             val |= bool(self.immediate_readiness_on_return_to_d0) << 20
             val |= bool(self.device_specific_initialization) << 21
-- 
2.43.0


From 4c5a2b5e374ffcbf9b090fa81e09cd76a47f4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 16/65] fix: PM data scale is read only

---
 cocotbext/pcie/core/caps/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pm.py b/cocotbext/pcie/core/caps/pm.py
index af1ccc1..6feb373 100644
--- a/cocotbext/pcie/core/caps/pm.py
+++ b/cocotbext/pcie/core/caps/pm.py
@@ -96,6 +96,5 @@ class PmCapability(PciCap):
             if mask & 0x2:
                 self.pme_enable = bool(data & 1 << 8)
                 self.data_select = (data >> 9) & 0xf
-                self.data_scale = (data >> 13) & 0x3
                 if data & 1 << 15:
                     self.pme_status = False
-- 
2.43.0


From 7faea9bccb70ae1b1489419bfdaf46681fefc0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 17/65] fix: data link layer state changed is in the upper byte
 of slot status

---
 cocotbext/pcie/core/caps/pcie.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 7d83a7a..8681fdf 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -535,6 +535,7 @@ class PcieCapability(PciCap):
                     self.presence_detect_changed = False
                 if data & 1 << 20:
                     self.command_completed = False
+            if mask & 0x8:
                 if data & 1 << 24:
                     self.data_link_layer_state_changed = False
         elif reg == 7:
-- 
2.43.0


From 58a2a9d74d70af9f19746f400fce92bd44a4412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 18/65] fix: link status 2 equalization request and DRS message
 received are write one to clear in their own bytes

---
 cocotbext/pcie/core/caps/pcie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 8681fdf..000aa4a 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -582,7 +582,9 @@ class PcieCapability(PciCap):
                 self.compliance_preset_deemphasis = (data >> 12) & 0xff
             # Link status 2
             if mask & 0x4:
-                self.link_equalization_8gt_request = bool(data & 1 << 21)
+                if data & 1 << 21:
+                    self.link_equalization_8gt_request = False
+            if mask & 0x8:
                 if data & 1 << 31:
                     self.drs_message_received = False
 
-- 
2.43.0


From e2c4aca2f5999a20b76d9013232e0b0f09f4e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 19/65] fix: downstream component presence is in bits 14:12 of
 link status 2

---
 cocotbext/pcie/core/caps/pcie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 000aa4a..84c41d1 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -449,7 +449,7 @@ class PcieCapability(PciCap):
             val |= bool(self.retimer_presence_detected) << 22
             val |= bool(self.two_retimers_presence_detected) << 23
             val |= (self.crosslink_resolution & 0x3) << 24
-            val |= (self.downstream_component_presence & 0x7) << 27
+            val |= (self.downstream_component_presence & 0x7) << 28
             val |= bool(self.drs_message_received) << 31
             return val
         else:
-- 
2.43.0


From 6f5fe4e4d84f07af73392f2aa6f2dbd6377c9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 20/65] fix: compliance preset is four bits wide

---
 cocotbext/pcie/core/caps/pcie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 84c41d1..6672e66 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -579,7 +579,7 @@ class PcieCapability(PciCap):
                 self.transmit_margin = self.transmit_margin & 0x1 | (data >> 7) & 0x6
                 self.enter_modified_compliance = bool(data & 1 << 10)
                 self.compliance_sos = bool(data & 1 << 11)
-                self.compliance_preset_deemphasis = (data >> 12) & 0xff
+                self.compliance_preset_deemphasis = (data >> 12) & 0xf
             # Link status 2
             if mask & 0x4:
                 if data & 1 << 21:
-- 
2.43.0


From 56aaf30f734f4fa22280d807ebc4e12a0e7ff499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 21/65] fix: lane equalization control registers start with
 lane 0

---
 cocotbext/pcie/core/caps/pcie.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 6672e66..1d5c588 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -639,16 +639,16 @@ class PcieExtendedCapability(PciExtCap):
         elif reg == 2:
             # Lane Error Status
             return self.lane_error_status & 0xffffffff
-        elif reg < 18:
+        elif 3 <= reg < 19:
             # Lane equalization control
-            val = self.downstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 4
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf) << 8
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 12
-            val |= (self.downstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 16
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 20
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 24
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 28
+            val = self.downstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 4
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf) << 8
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 12
+            val |= (self.downstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 16
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 20
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 24
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 28
             return val
         else:
             return 0
-- 
2.43.0


From 21db5e7033a9350a93dd2909816ea44375bbb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 22/65] fix: AER first error pointer is five bits wide

---
 cocotbext/pcie/core/caps/aer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index 45c99d8..b8082bb 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -258,7 +258,7 @@ class AerExtendedCapability(PciExtCap):
             return val
         elif reg == 6:
             # Advanced error capabilities and control
-            val = self.first_error_pointer & 0xf
+            val = self.first_error_pointer & 0x1f
             val |= bool(self.ecrc_generation_capable) << 5
             val |= bool(self.ecrc_generation_enable) << 6
             val |= bool(self.ecrc_check_capable) << 7
-- 
2.43.0


From 2ad77b6b9e0599cf6360a9f821aa9d7c5cbd56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 23/65] fix: order of the AER root error command enable bits

---
 cocotbext/pcie/core/caps/aer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index b8082bb..e6fdb58 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -273,9 +273,9 @@ class AerExtendedCapability(PciExtCap):
             return self.header_log[reg-7] & 0xffffffff
         elif reg == 11:
             # Root error command
-            val = bool(self.fatal_error_reporting_enable)
+            val = bool(self.correctable_error_reporting_enable)
             val |= bool(self.nonfatal_error_reporting_enable) << 1
-            val |= bool(self.correctable_error_reporting_enable) << 2
+            val |= bool(self.fatal_error_reporting_enable) << 2
             return val
         elif reg == 12:
             # Root error status
@@ -428,9 +428,9 @@ class AerExtendedCapability(PciExtCap):
         elif reg == 11:
             # Root error command
             if mask & 0x1:
-                self.fatal_error_reporting_enable = bool(data & 1 << 0)
+                self.correctable_error_reporting_enable = bool(data & 1 << 0)
                 self.nonfatal_error_reporting_enable = bool(data & 1 << 1)
-                self.correctable_error_reporting_enable = bool(data & 1 << 2)
+                self.fatal_error_reporting_enable = bool(data & 1 << 2)
             pass
         elif reg == 12:
             # Root error status
-- 
2.43.0


From 69783749e20802a508b82cfcdade721b1898a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 24/65] fix: placing a capability could overlap the last
 register of another one

---
 cocotbext/pcie/core/caps/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 91f08b5..847ad40 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -196,7 +196,7 @@ class PciCapList:
         else:
             cap.offset = self.start
             for c in self.list:
-                if c.offset < cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
+                if c.offset <= cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
                     cap.offset = c.offset+c.length
 
         self.list.append(cap)
-- 
2.43.0


From c9b73ef30ceb4ca5204b74ab502587b0580a10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 25/65] fix: a single remaining capability kept its link to a
 removed one

---
 cocotbext/pcie/core/caps/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 847ad40..c6e34c2 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -219,9 +219,10 @@ class PciCapList:
         self.list.sort(key=lambda x: x.offset)
 
         # update list next cap pointers
-        for k in range(1, len(self.list)):
-            self.list[k-1].next_cap = self.list[k].offset*4
+        for k in range(len(self.list)):
             self.list[k].next_cap = 0
+            if k > 0:
+                self.list[k-1].next_cap = self.list[k].offset*4
 
 
 class PciExtCapList(PciCapList):
-- 
2.43.0


From bd3321fedfa48589e92d3724c87b1fc44f7b28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 26/65] fix: removing a capability left the capabilities
 pointer pointing to it

---
 cocotbext/pcie/core/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 8bb4eec..ad2f597 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -308,14 +308,18 @@ class Function:
     def register_capability(self, cap, offset=None):
         cap.parent = self
         self.capabilities.register(cap, offset)
+        self._update_capabilities_ptr()
+
+    def deregister_capability(self, cap):
+        self.capabilities.deregister(cap)
+        self._update_capabilities_ptr()
+
+    def _update_capabilities_ptr(self):
         if self.capabilities.list:
             self.capabilities_ptr = self.capabilities.list[0].offset*4
         else:
             self.capabilities_ptr = 0
 
-    def deregister_capability(self, cap):
-        self.capabilities.deregister(cap)
-
     async def read_extended_capability_register(self, reg):
         return await self.ext_capabilities.read_register(reg)
 
-- 
2.43.0


From 5bc9e13f786960bb885109e8b026c39a1b4397ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 27/65] fix: BIST control is in the upper byte of its register

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index ad2f597..536b168 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -285,7 +285,7 @@ class Function:
             if mask & 1:
                 # Cache line size
                 self.cache_line_size = data & 0xff
-            if mask & 4:
+            if mask & 8:
                 # BIST
                 self.start_bist = bool(data & 1 << 30)
         elif reg == 15:
-- 
2.43.0


From 46e11e3556bd7d5232094d3e0dd4b73ca854e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 28/65] fix: the expansion ROM register of a function without
 expansion ROM reads as zero

---
 cocotbext/pcie/core/bridge.py   | 2 +-
 cocotbext/pcie/core/endpoint.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/bridge.py b/cocotbext/pcie/core/bridge.py
index 59ba2b1..0f183bf 100644
--- a/cocotbext/pcie/core/bridge.py
+++ b/cocotbext/pcie/core/bridge.py
@@ -262,7 +262,7 @@ class Bridge(Function):
             # Expansion ROM Base Address
             self.expansion_rom_addr = byte_mask_update(self.expansion_rom_addr,
                 mask, data, self.expansion_rom_addr_mask) & 0xfffff800
-            if mask & 0x1:
+            if mask & 0x1 and self.expansion_rom_addr_mask:
                 self.expansion_rom_enable = (data & 1) != 0
         elif reg == 15:
             # Interrupt line
diff --git a/cocotbext/pcie/core/endpoint.py b/cocotbext/pcie/core/endpoint.py
index 995b1de..3a9de87 100644
--- a/cocotbext/pcie/core/endpoint.py
+++ b/cocotbext/pcie/core/endpoint.py
@@ -156,7 +156,7 @@ class Endpoint(Function):
             # Expansion ROM Base Address
             self.expansion_rom_addr = byte_mask_update(self.expansion_rom_addr,
                 mask, data, self.expansion_rom_addr_mask) & 0xfffff800
-            if mask & 0x1:
+            if mask & 0x1 and self.expansion_rom_addr_mask:
                 self.expansion_rom_enable = (data & 1) != 0
         elif reg == 15:
             # Interrupt line
-- 
2.43.0


From 3a1710890f3512d32df768ef31be50ac985f7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 29/65] fix: keep the base of allocated MSI vectors aligned

---
 cocotbext/pcie/core/msi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/msi.py b/cocotbext/pcie/core/msi.py
index 6d97bb7..93ec7a1 100644
--- a/cocotbext/pcie/core/msi.py
+++ b/cocotbext/pcie/core/msi.py
@@ -57,7 +57,8 @@ class MsiRegion(Region):
             self.msi_vectors[vec.data] = vec
             self.msi_msg_limit += 1
 
-        self.msi_msg_limit += self.msi_msg_limit % 32
+        # functions replace the low bits of the MSI message data
+        self.msi_msg_limit += -self.msi_msg_limit % 32
 
         return vecs
 
-- 
2.43.0


From 1bd0f6393bbbcc2c5694fc1ffba9facaba15b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 30/65] fix: allocate enough vectors when changing between MSI
 and MSI-X

---
 cocotbext/pcie/core/pci.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 806a9fa..090dcc7 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -966,8 +966,9 @@ class PciDevice:
         self.rc.log.info("pci %s: MSI-X PBA BIR: %d", self.pcie_id, pba_bir)
         self.rc.log.info("pci %s: MSI-X PBA offset: 0x%08x", self.pcie_id, pba_offset)
 
-        if not self.msi_vectors:
-            self.msi_vectors = self.rc.msi_alloc_vectors(table_size)
+        if len(self.msi_vectors) < table_size:
+            # at least 32, such that these can also be used for MSI
+            self.msi_vectors += self.rc.msi_alloc_vectors(max(table_size, 32)-len(self.msi_vectors))
 
         # configure vectors
         for k in range(table_size):
-- 
2.43.0


From c0564b905b1831d39b31df9fa5b92453bc5d80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 31/65] fix: copy request_completed when copying a Tlp_us

---
 cocotbext/pcie/xilinx/us/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/xilinx/us/tlp.py b/cocotbext/pcie/xilinx/us/tlp.py
index fd7391d..ea610bf 100644
--- a/cocotbext/pcie/xilinx/us/tlp.py
+++ b/cocotbext/pcie/xilinx/us/tlp.py
@@ -120,7 +120,7 @@ class Tlp_us(Tlp):
             self.discontinue = tlp.discontinue
             self.seq_num = tlp.seq_num
             self.error_code = tlp.error_code
-            self.request_completed == tlp.request_completed
+            self.request_completed = tlp.request_completed
 
     def pack_us_cq(self):
         pkt = UsPcieFrame()
-- 
2.43.0


From 9ac4b4b389e14f2bec072a2c08fc592e91959aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 32/65] fix: CQ byte enables belong to the first or second
 packet of a beat, not to its segment

---
 cocotbext/pcie/xilinx/us/interface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/interface.py b/cocotbext/pcie/xilinx/us/interface.py
index 35425e1..6d1a022 100644
--- a/cocotbext/pcie/xilinx/us/interface.py
+++ b/cocotbext/pcie/xilinx/us/interface.py
@@ -929,8 +929,8 @@ class CqSource(UsPcieSource):
                         first = False
 
                         if self.width == 512:
-                            transaction.tuser |= (frame.first_be & 0xf) << (seg*4)
-                            transaction.tuser |= (frame.last_be & 0xf) << (seg*4+8)
+                            transaction.tuser |= (frame.first_be & 0xf) << (sop_cnt*4)
+                            transaction.tuser |= (frame.last_be & 0xf) << (sop_cnt*4+8)
 
                             # is_sop
                             transaction.tuser |= 1 << 80+sop_cnt
@@ -1012,6 +1012,7 @@ class CqSink(UsPcieSink):
             seg_valid = 2**self.seg_count-1
             seg_sop = 0
             seg_eop = 0
+            sop_cnt = 0
 
             if self.seg_count == 1:
                 lane_valid = int(sample.tkeep)
@@ -1056,12 +1057,14 @@ class CqSink(UsPcieSink):
                     frame = UsPcieFrame()
 
                     if self.width == 512:
-                        frame.first_be = (int(sample.tuser) >> (seg*4)) & 0xf
-                        frame.last_be = (int(sample.tuser) >> (seg*4+8)) & 0xf
+                        frame.first_be = (int(sample.tuser) >> (sop_cnt*4)) & 0xf
+                        frame.last_be = (int(sample.tuser) >> (sop_cnt*4+8)) & 0xf
                     else:
                         frame.first_be = int(sample.tuser) & 0xf
                         frame.last_be = (int(sample.tuser) >> 4) & 0xf
 
+                    sop_cnt += 1
+
                 if int(sample.tuser) & (1 << self.discontinue_offset):
                     frame.discontinue = True
 
-- 
2.43.0


From cfcbd3de19de7cd3ab58981b8e56a3f31d4100a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 33/65] fix: a bridge that aborts a request from its secondary
 side reports it in the secondary status

---
 cocotbext/pcie/core/bridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/bridge.py b/cocotbext/pcie/core/bridge.py
index 0f183bf..0d7c7d0 100644
--- a/cocotbext/pcie/core/bridge.py
+++ b/cocotbext/pcie/core/bridge.py
@@ -452,7 +452,7 @@ class Bridge(Function):
         if self.match_tlp_secondary(tlp):
             if tlp.is_completion() and tlp.status == CplStatus.CA:
                 self.log.warning("Sending completion with CA status on secondary interface, reporting target abort")
-                self.signaled_target_abort = True
+                self.sec_signaled_target_abort = True
             await self.route_downstream_tlp(tlp, False)
         else:
             if tlp.is_completion() and tlp.status == CplStatus.CA:
-- 
2.43.0


From 6f86f21d79633bcd4dd5652098216372a22682ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 34/65] fix: ignore the tag field of the RQ descriptor when
 tags are managed internally

---
 cocotbext/pcie/xilinx/us/us_model.py  | 8 ++++----
 cocotbext/pcie/xilinx/us/usp_model.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index fc72913..3cb9541 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1044,15 +1044,15 @@ class UltraScalePcieDevice(Device):
                         # TODO: internal response
                         continue
 
+                    if not self.enable_client_tag:
+                        tlp.tag = self.get_free_tag()
+                        self.rq_tag.put_nowait(tlp.tag)
+
                     if self.functions[0].pcie_cap.extended_tag_field_enable:
                         assert tlp.tag < 64, "tag out of range (extended tags enabled)"
                     else:
                         assert tlp.tag < 32, "tag out of range (extended tags disabled)"
 
-                    if not self.enable_client_tag:
-                        tlp.tag = self.get_free_tag()
-                        self.rq_tag.put_nowait(tlp.tag)
-
                     assert not self.active_request[tlp.tag], "active tag reused"
                     self.active_request[tlp.tag] = tlp
                     self.tag_available_count = self.get_available_tag_count()
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 924d5e5..b6c02ed 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1184,15 +1184,15 @@ class UltraScalePlusPcieDevice(Device):
                         # TODO: internal response
                         continue
 
+                    if not self.enable_client_tag:
+                        tlp.tag = self.get_free_tag()
+                        self.rq_tag.put_nowait(tlp.tag)
+
                     if self.functions[0].pcie_cap.extended_tag_field_enable:
                         assert tlp.tag < 256, "tag out of range (extended tags enabled)"
                     else:
                         assert tlp.tag < 32, "tag out of range (extended tags disabled)"
 
-                    if not self.enable_client_tag:
-                        tlp.tag = self.get_free_tag()
-                        self.rq_tag.put_nowait(tlp.tag)
-
                     assert not self.active_request[tlp.tag], "active tag reused"
                     self.active_request[tlp.tag] = tlp
                     self.tag_available_count = self.get_available_tag_count()
-- 
2.43.0


From 7651e8d516d9a62412c7a947f56f3cd62e3ef92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 35/65] fix: release the completion credits of a request when
 it completes, whatever its completion carries

---
 cocotbext/pcie/xilinx/us/us_model.py  | 7 ++++---
 cocotbext/pcie/xilinx/us/usp_model.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 3cb9541..98a1499 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -861,9 +861,10 @@ class UltraScalePcieDevice(Device):
                         tlp.request_completed = True
                         self.active_request[tlp.tag] = None
 
-                    # TODO track individual operations
-                    self.cpld_credit_count = max(self.cpld_credit_count-tlp.get_data_credits(), 0)
-                    self.cpld_credit_released.set()
+                    if tlp.request_completed:
+                        # release what was reserved for this request
+                        self.cpld_credit_count = max(self.cpld_credit_count-req.get_data_credits(), 0)
+                        self.cpld_credit_released.set()
 
                     # check and track buffer occupancy
                     data_fc = tlp.get_data_credits()
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index b6c02ed..2f9ad58 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1005,9 +1005,10 @@ class UltraScalePlusPcieDevice(Device):
                         tlp.request_completed = True
                         self.active_request[tlp.tag] = None
 
-                    # TODO track individual operations
-                    self.cpld_credit_count = max(self.cpld_credit_count-tlp.get_data_credits(), 0)
-                    self.cpld_credit_released.set()
+                    if tlp.request_completed:
+                        # release what was reserved for this request
+                        self.cpld_credit_count = max(self.cpld_credit_count-req.get_data_credits(), 0)
+                        self.cpld_credit_released.set()
 
                     # check and track buffer occupancy
                     data_fc = tlp.get_data_credits()
-- 
2.43.0


From 250988917da8c01e8a64f00348c19b3063808c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 36/65] fix: wake requests that wait for a tag when a
 completion frees one

---
 cocotbext/pcie/xilinx/us/us_model.py  | 1 +
 cocotbext/pcie/xilinx/us/usp_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 98a1499..a755d3e 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -879,6 +879,7 @@ class UltraScalePcieDevice(Device):
                         self.local_error = True
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 2f9ad58..86fb5e1 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1023,6 +1023,7 @@ class UltraScalePlusPcieDevice(Device):
                         self.local_error.put_nowait(LocalError.RX_CPL_BUF_OVF_ERR)
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
-- 
2.43.0


From 4a479e0fe13e7b6e9be07ef3a55d463033c246f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 37/65] fix: count only the tags the UltraScale core has as
 available

---
 cocotbext/pcie/xilinx/us/us_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index a755d3e..b70ed0f 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -761,7 +761,7 @@ class UltraScalePcieDevice(Device):
 
     def get_available_tag_count(self):
         if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
+            return self.active_request[0:self.tag_count].count(None)
         else:
             return self.active_request[0:32].count(None)
 
-- 
2.43.0


From cc62a5f2135f6b1de086a8bbb0aac77eb15a215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 38/65] fix: a read with no byte enabled is completed with
 lower address bits 1:0 zero

---
 cocotbext/pcie/core/tlp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 2167ada..55fddea 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -384,7 +384,10 @@ class Tlp:
 
     def get_first_be_offset(self):
         """Offset to first transferred byte from first byte enable"""
-        if self.first_be & 0x7 == 0:
+        if self.first_be & 0xf == 0:
+            # no bytes enabled (zero-length request)
+            return 0
+        elif self.first_be & 0x7 == 0:
             return 3
         elif self.first_be & 0x3 == 0:
             return 2
@@ -399,7 +402,7 @@ class Tlp:
             be = self.first_be
         else:
             be = self.last_be
-        if be & 0xf == 0x1:
+        if be & 0xe == 0x0:
             return 3
         elif be & 0xe == 0x2:
             return 2
-- 
2.43.0


From c8253fa54680521d55b09d80d59891570386f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 39/65] fix: report the BAR aperture of the function that
 claimed the request on CQ

---
 cocotbext/pcie/xilinx/us/us_model.py  | 10 +++++-----
 cocotbext/pcie/xilinx/us/usp_model.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index b70ed0f..d1e0029 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -898,7 +898,7 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
@@ -918,11 +918,11 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
                     self.cq_queue.put_nowait(tlp)
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 86fb5e1..4c63de5 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1042,7 +1042,7 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
                     self.cq_queue.put_nowait(tlp)
 
@@ -1062,11 +1062,11 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
-- 
2.43.0


From a14a735f63df5208336108155cb08d903afaaf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 40/65] fix: report the function that claimed the request as
 the CQ target function

---
 cocotbext/pcie/xilinx/us/us_model.py  | 2 +-
 cocotbext/pcie/xilinx/us/usp_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index d1e0029..d38ef6a 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -923,7 +923,7 @@ class UltraScalePcieDevice(Device):
                             (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
                         tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 4c63de5..c17031c 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1043,7 +1043,7 @@ class UltraScalePlusPcieDevice(Device):
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
                     tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
-- 
2.43.0


From dc14b63d53bdc5dd60f869cce8f619d4a581c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 41/65] fix: count pcie_cq_np_req pulses while the CQ interface
 is stalled

---
 cocotbext/pcie/xilinx/us/us_model.py  | 17 ++++++++++++-----
 cocotbext/pcie/xilinx/us/usp_model.py | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index d38ef6a..2f8466c 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -734,6 +734,7 @@ class UltraScalePcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -976,7 +977,7 @@ class UltraScalePcieDevice(Device):
             # pcie_perstn0_out
             # pcie_perstn1_out
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -986,6 +987,16 @@ class UltraScalePcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -1010,10 +1021,6 @@ class UltraScalePcieDevice(Device):
                     # posted request
                     await self.cq_source.send(tlp.pack_us_cq())
 
-            # output new cq_np_req_count
-            if self.pcie_cq_np_req_count is not None:
-                self.pcie_cq_np_req_count.value = self.cq_np_req_count
-
     async def _run_cc_logic(self):
         while True:
             tlp = Tlp_us.unpack_us_cc(await self.cc_sink.recv(), self.enable_parity)
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index c17031c..573fbf9 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -878,6 +878,7 @@ class UltraScalePlusPcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -1116,7 +1117,7 @@ class UltraScalePlusPcieDevice(Device):
             else:
                 return
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -1126,6 +1127,16 @@ class UltraScalePlusPcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -1150,10 +1161,6 @@ class UltraScalePlusPcieDevice(Device):
                     # posted request
                     await self.cq_source.send(tlp.pack_us_cq())
 
-            # output new cq_np_req_count
-            if self.pcie_cq_np_req_count is not None:
-                self.pcie_cq_np_req_count.value = self.cq_np_req_count
-
     async def _run_cc_logic(self):
         while True:
             tlp = Tlp_us.unpack_us_cc(await self.cc_sink.recv(), self.enable_parity)
-- 
2.43.0


From 7d5c146a07cf54c8b31b75e12333a51742427256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 42/65] fix: keep non-posted requests in order on CQ when a
 credit arrives while some are queued

---
 cocotbext/pcie/xilinx/us/us_model.py  | 2 +-
 cocotbext/pcie/xilinx/us/usp_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 2f8466c..0918957 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1010,7 +1010,7 @@ class UltraScalePcieDevice(Device):
 
                 if tlp.fmt_type in {TlpType.IO_READ, TlpType.IO_WRITE, TlpType.MEM_READ, TlpType.MEM_READ_64}:
                     # non-posted request
-                    if self.cq_np_req_count > 0:
+                    if self.cq_np_req_count > 0 and self.cq_np_queue.empty():
                         # have credit, can forward
                         self.cq_np_req_count -= 1
                         await self.cq_source.send(tlp.pack_us_cq())
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 573fbf9..3867e85 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1150,7 +1150,7 @@ class UltraScalePlusPcieDevice(Device):
 
                 if tlp.fmt_type in {TlpType.IO_READ, TlpType.IO_WRITE, TlpType.MEM_READ, TlpType.MEM_READ_64}:
                     # non-posted request
-                    if self.cq_np_req_count > 0:
+                    if self.cq_np_req_count > 0 and self.cq_np_queue.empty():
                         # have credit, can forward
                         self.cq_np_req_count -= 1
                         await self.cq_source.send(tlp.pack_us_cq())
-- 
2.43.0


From b6028913dbba1a9c9a2d751600b6d7fd35533826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 43/65] fix: report MSI enable and vector count of all four
 functions of UltraScale+

---
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 3867e85..48fe54b 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1607,7 +1607,7 @@ class UltraScalePlusPcieDevice(Device):
             # MSI
             if self.cfg_interrupt_msi_enable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     if self.functions[k].msi_cap.msi_enable:
                         val |= 1 << k
                 self.cfg_interrupt_msi_enable.value = val
@@ -1626,7 +1626,7 @@ class UltraScalePlusPcieDevice(Device):
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     val |= (self.functions[k].msi_cap.msi_multiple_message_enable & 0x7) << k*3
                 self.cfg_interrupt_msi_mmenable.value = val
 
-- 
2.43.0


From a4b65d6bad417510a97007ad1f46e96539966f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 44/65] fix: report received credits with cfg_fc_sel 2 on
 UltraScale+

---
 cocotbext/pcie/xilinx/us/usp_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 48fe54b..791b1fb 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1472,12 +1472,12 @@ class UltraScalePlusPcieDevice(Device):
 
             if (sel == 0b010):
                 # Receive credits consumed
-                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_consumed
-                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_consumed
-                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_consumed
-                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_consumed
-                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_consumed
-                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_consumed
+                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_received
+                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_received
+                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_received
+                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_received
+                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_received
+                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_received
             elif (sel == 0b100):
                 # Transmit credits available
                 cfg_fc_ph = self.upstream_port.fc_state[0].ph.tx_credits_available
-- 
2.43.0


From 0986e72e8fcb7a8ff3ecba197cd6dc42f6def993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 45/65] fix: offer the configured number of MSI vectors in the
 third and fourth function of UltraScale+

---
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 791b1fb..f374111 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -827,7 +827,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -844,7 +844,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
-- 
2.43.0


From e092ee68db36d8e4ba9c83ec639932a3e6f8f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 46/65] fix: reset the queue occupancy in clear() of the
 Stratix 10 interfaces

---
 cocotbext/pcie/intel/s10/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index fab4a5e..dd586b6 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -268,6 +268,9 @@ class S10PcieBase:
     def clear(self):
         while not self.queue.empty():
             self.queue.get_nowait()
+        self.dequeue_event.set()
+        self.queue_occupancy_bytes = 0
+        self.queue_occupancy_frames = 0
         self.idle_event.set()
         self.active_event.clear()
 
-- 
2.43.0


From 61b8887903e193d3764cbdbf0d7fa9e8f0b2128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 47/65] fix: reset the queue occupancy in clear() of the P-tile
 interfaces

---
 cocotbext/pcie/intel/ptile/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index cdf0c85..c1b3317 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -294,6 +294,9 @@ class PTilePcieBase:
     def clear(self):
         while not self.queue.empty():
             self.queue.get_nowait()
+        self.dequeue_event.set()
+        self.queue_occupancy_bytes = 0
+        self.queue_occupancy_frames = 0
         self.idle_event.set()
         self.active_event.clear()
 
-- 
2.43.0


From 40b83f4a32d898840df5e345f58a2ac7c89f94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 48/65] fix: func_num of the Stratix 10 interface has two bits
 per segment

---
 cocotbext/pcie/intel/s10/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index dd586b6..cba5dbc 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -450,7 +450,7 @@ class S10PcieSource(S10PcieBase):
                         transaction.sop |= 1 << seg
 
                     transaction.bar_range |= frame.bar_range << seg*3
-                    transaction.func_num |= frame.func_num << seg*3
+                    transaction.func_num |= frame.func_num << seg*2
                     if frame.vf_num is not None:
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
@@ -615,7 +615,7 @@ class S10PcieSink(S10PcieBase):
                         dword_count += count
 
                     frame.bar_range = (int(sample.bar_range) >> seg*3) & 0x7
-                    frame.func_num = (int(sample.func_num) >> seg*3) & 0x7
+                    frame.func_num = (int(sample.func_num) >> seg*2) & 0x3
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
                     frame.err = (int(sample.err) >> seg) & 0x1
-- 
2.43.0


From 0006cf8e5e3ec6eb8d4deda64883259e00efacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 49/65] fix: transfer tlp_abort over the P-tile RX interface

---
 cocotbext/pcie/intel/ptile/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index c1b3317..824ced4 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -493,6 +493,7 @@ class PTilePcieSource(PTilePcieBase):
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
                     transaction.err |= frame.err << seg
+                    transaction.tlp_abort |= frame.tlp_abort << seg
 
                     empty = 0
                     if frame.data:
@@ -655,6 +656,7 @@ class PTilePcieSink(PTilePcieBase):
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
                     frame.err = (int(sample.err) >> seg) & 0x1
+                    frame.tlp_abort = (int(sample.tlp_abort) >> seg) & 0x1
 
                 assert frame is not None, "framing error: data transferred outside of frame"
 
-- 
2.43.0


From 0a21b3a63143737f9a63a917213e6a566bd9a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 50/65] fix: a reset clears the ready history of the Stratix 10
 interfaces

---
 cocotbext/pcie/intel/s10/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index cba5dbc..de45ffd 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -402,6 +402,7 @@ class S10PcieSource(S10PcieBase):
             if self.reset is not None and self.reset.value:
                 self.active = False
                 self.bus.valid.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
@@ -561,6 +562,7 @@ class S10PcieSink(S10PcieBase):
 
             if self.reset is not None and self.reset.value:
                 self.bus.ready.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
-- 
2.43.0


From 54b7087d214043a2b498cb39abc622ebd27d039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 51/65] fix: a reset clears the ready history of the P-tile
 interfaces

---
 cocotbext/pcie/intel/ptile/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index 824ced4..ba468c8 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -436,6 +436,7 @@ class PTilePcieSource(PTilePcieBase):
             if self.reset is not None and self.reset.value:
                 self.active = False
                 self.bus.valid.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
@@ -600,6 +601,7 @@ class PTilePcieSink(PTilePcieBase):
 
             if self.reset is not None and self.reset.value:
                 self.bus.ready.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
-- 
2.43.0


From 3b0419a260b20c73d908f8f018758f2b1778ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 52/65] fix: report the function that claimed the request on
 the Stratix 10 RX interface

---
 cocotbext/pcie/intel/s10/s10_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 824d4a8..bad521a 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -671,7 +671,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -692,7 +692,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
-- 
2.43.0


From a05d4c1e52b554846c5beadee63c656074a08e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 53/65] fix: report the function that claimed the request on
 the P-tile RX interface

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index d994702..ac1424f 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -817,7 +817,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -838,7 +838,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
-- 
2.43.0


From cbbad3e39aa99f74556e20ba0aa7c63d445acaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 54/65] fix: requests do not free completion buffer space in
 the Stratix 10 model

---
 cocotbext/pcie/intel/s10/s10_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index bad521a..870e584 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -757,8 +757,9 @@ class S10PcieDevice(Device):
             tlp, frame = await self.rx_queue.get()
             await self.rx_source.send(frame)
 
-            self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
-            self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
+            if tlp.is_completion():
+                self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
+                self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
 
     async def _run_tx_logic(self):
         while True:
-- 
2.43.0


From 138259b975300d48085908023c9a628941a3496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 55/65] fix: requests do not free completion buffer space in
 the P-tile model

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index ac1424f..4e1d71a 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -899,8 +899,9 @@ class PTilePcieDevice(Device):
             tlp, frame = await self.rx_queue.get()
             await self.rx_source.send(frame)
 
-            self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
-            self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
+            if tlp.is_completion():
+                self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
+                self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
 
     async def _run_tx_logic(self):
         while True:
-- 
2.43.0


From eb334d3e4c5f7b281fd969d278b53e2edf59e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 56/65] fix: extended capabilities of the hard IP models could
 not be reached

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 cocotbext/pcie/xilinx/us/us_model.py      | 4 ++--
 cocotbext/pcie/xilinx/us/usp_model.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index 4e1d71a..a76d014 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -88,13 +88,13 @@ class PTilePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x52
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # PHY16 0x6e
         # LM 0x7a
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 870e584..8230c36 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -75,13 +75,13 @@ class S10PcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x4e
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # SRIOV 0x6e
         # TPH 0x7e
diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 0918957..3ea10a9 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -86,7 +86,7 @@ class UltraScalePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # ARI 0x50
         # DSN 0x54
@@ -97,7 +97,7 @@ class UltraScalePcieFunction(Endpoint):
         # TPH 0x9d
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0xC0)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0xC0)
 
         # VSEC 0xd0 (MCAP)
         # VC 0xf0
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index f374111..af916b0 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -125,14 +125,14 @@ class UltraScalePlusPcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # SRIOV 0x50
         # ARI 0x60
         # DSN 0x68
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x70)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x70)
 
         # VC 0x80
         # TPH 0x88
-- 
2.43.0


From e4ccc002b8fec203a9080041fccb301fb3348f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 57/65] fix: place of the AER interrupt message number in the
 L-tile configuration output

---
 cocotbext/pcie/intel/s10/s10_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 8230c36..97b51f4 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -970,7 +970,7 @@ class S10PcieDevice(Device):
                 val = bool(func.pcie_cap.system_error_on_fatal_error_enable) << 31
                 val |= bool(func.pcie_cap.system_error_on_non_fatal_error_enable) << 30
                 val |= bool(func.pcie_cap.system_error_on_correctable_error_enable) << 29
-                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 28
+                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 24
                 val |= (func.pcie_cap.negotiated_link_width & 0x3f) << 18
                 val |= bool(func.pm_cap.no_soft_reset) << 17
                 val |= bool(func.pcie_cap.read_completion_boundary) << 16
-- 
2.43.0


From 581c69d3e1de3d0e331bd84ac895972c1f62970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 58/65] fix: offer the configured number of MSI vectors in the
 third and fourth function of Stratix 10

---
 cocotbext/pcie/intel/s10/s10_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 97b51f4..bf2ca0e 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -553,7 +553,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -570,7 +570,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
-- 
2.43.0


From a6ab7cda632b42aed8881def2634f4c78322a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 59/65] fix: P-tile clock frequency was rounded to a whole
 number of nanoseconds

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index a76d014..2f480c7 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -741,7 +741,7 @@ class PTilePcieDevice(Device):
         # fork coroutines
 
         if self.coreclkout_hip is not None:
-            cocotb.start_soon(Clock(self.coreclkout_hip, int(1e9/self.pld_clk_frequency), units="ns").start())
+            cocotb.start_soon(Clock(self.coreclkout_hip, 2*round(0.5e12/self.pld_clk_frequency), units="ps").start())
 
         if self.rx_source is not None:
             cocotb.start_soon(self._run_rx_logic())
-- 
2.43.0


From fd51cf6b0cd21c570a73b2acdab0a8a7ba92ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 60/65] fix: P-tile chose a link width that the port does not
 have

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index 2f480c7..fdbf7fe 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -572,13 +572,12 @@ class PTilePcieDevice(Device):
                 if self.pld_clk_frequency is not None and self.pld_clk_frequency != config[3]:
                     continue
 
-                if self.pcie_link_width is not None:
-                    if self.port_num == 1 and config[1] > 8:
-                        # port 1 only supports x4 and x8
-                        continue
-                    if self.port_num >= 2 and config[1] > 4:
-                        # ports 2 and 3 only supports x4
-                        continue
+                if self.port_num == 1 and config[1] > 8:
+                    # port 1 only supports x4 and x8
+                    continue
+                if self.port_num >= 2 and config[1] > 4:
+                    # ports 2 and 3 only supports x4
+                    continue
 
                 # set the unspecified parameters
                 if self.pcie_generation is None:
-- 
2.43.0


From 55c51da98f30c92a0ee31a5d5eb2076c8f5f81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 61/65] fix: an endpoint on the internal bus of a switch or
 root complex broke routing

---
 cocotbext/pcie/core/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 536b168..1a00b5e 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -421,6 +421,10 @@ class Function:
             raise Exception("TODO")
         return False
 
+    def match_tlp_secondary(self, tlp):
+        # no secondary interface
+        return False
+
     async def upstream_send(self, tlp):
         self.log.debug("Sending upstream TLP: %r", tlp)
         assert tlp.check()
-- 
2.43.0


From 54663a83793a1e500c24db80c6becdc5ada05a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:39 +0000
Subject: [PATCH 62/65] fix: capability accesses through the root complex
 raised AttributeError

---
 cocotbext/pcie/core/rc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 527e5f7..3792294 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -686,7 +686,7 @@ class RootComplex(Switch):
         await self.config_write_qwords(dev, addr, [data], byteorder, timeout, timeout_unit)
 
     async def capability_read(self, dev, cap_id, addr, length, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.host_bridge.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
@@ -724,7 +724,7 @@ class RootComplex(Switch):
         return (await self.capability_read_qwords(dev, cap_id, addr, 1, byteorder, timeout, timeout_unit))[0]
 
     async def capability_write(self, dev, cap_id, addr, data, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.host_bridge.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
-- 
2.43.0


From ebc6a6e8ce4b922b13ac95372b5adcd1097e2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 63/65] fix: enabling a device did not restore bus mastering of
 an enabled bridge above it

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 090dcc7..83f9ba3 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -544,7 +544,7 @@ class PciDevice:
 
         if self.is_enabled():
             if not self.is_busmaster:
-                self.set_master()
+                await self.set_master()
             return
 
         await self.enable_device()
-- 
2.43.0


From 4a0a9234cdfed20b6aabc3b356209c55d1f1a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 64/65] fix: close empty bridge windows with base above limit
 explicitly

With a window used up to its very end, the empty windows of later bridges
had a base of 2^32: the IO base could not be written at all, and the memory
window wrapped around and decoded everything.
---
 cocotbext/pcie/core/pci.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 83f9ba3..3bbc85c 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -1277,6 +1277,17 @@ class PciDevice:
             await self.config_write_dword(rom, bar_raw)
 
     async def setup_bridge(self):
+        # close windows that contain nothing
+        if self.io_limit < self.io_base:
+            self.io_base = 0xfffff000
+            self.io_limit = 0x00000fff
+        if self.mem_limit < self.mem_base:
+            self.mem_base = 0xfff00000
+            self.mem_limit = 0x000fffff
+        if self.prefetchable_mem_limit < self.prefetchable_mem_base:
+            self.prefetchable_mem_base = 0xfffffffffff00000
+            self.prefetchable_mem_limit = 0x00000000000fffff
+
         self.rc.log.info("Set IO base: 0x%08x, limit: 0x%08x", self.io_base, self.io_limit)
 
         await self.config_write(0x01C, struct.pack('BB',
-- 
2.43.0


From d42f83b21aa3a4493d2f5efd3d6fd4d63159de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 65/65] fix: device control updates must not clear device
 status bits

---
 cocotbext/pcie/core/pci.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 3bbc85c..31eb175 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -765,12 +765,12 @@ class PciDevice:
         if readrq < 0 or readrq > 5:
             raise ValueError()
 
-        old_devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        old_devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         devctl = old_devctl & ~(0x7000) | (readrq << 12)
 
         if devctl != old_devctl:
-            await self.capability_write_dword(PciCapId.EXP, 0x8, devctl)
+            await self.capability_write_word(PciCapId.EXP, 0x8, devctl)
 
     async def get_mps(self):
         devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
@@ -781,12 +781,12 @@ class PciDevice:
         if mps < 0 or mps > 5 or mps > self.pcie_mpss:
             raise ValueError()
 
-        old_devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        old_devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         devctl = old_devctl & ~(0x00e0) | (mps << 5)
 
         if devctl != old_devctl:
-            await self.capability_write_dword(PciCapId.EXP, 0x8, devctl)
+            await self.capability_write_word(PciCapId.EXP, 0x8, devctl)
 
     async def configure_extended_tags(self):
         if not self.is_pcie():
@@ -795,11 +795,11 @@ class PciDevice:
         if not self.pcie_devcap_reg & (1 << 5):
             return
 
-        devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         if not devctl & (1 << 8):
             self.rc.log.info("pci %s: enabling Extended Tags", self.pcie_id)
-            await self.capability_write_dword(PciCapId.EXP, 0x8, devctl | (1 << 8))
+            await self.capability_write_word(PciCapId.EXP, 0x8, devctl | (1 << 8))
 
     async def configure_serr(self):
         if self.header_type != 0x01:
-- 
2.43.0

