From f4b866814625f1716da4d705659f84b344dfb2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 01/20] fix: compute fixed-point scaling with powers of two,
 float tensors have no shift operators

torch no longer implements << and >> for float tensors on CPU, so every
forward of HUB*/FXP*/TLUT* Linear and Conv2d raised.
---
 kernel/linear.py | 66 ++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/kernel/linear.py b/kernel/linear.py
index 1f3c9c6..6663b63 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -444,7 +444,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale input to range 0~2^widthi-1
         buf_i = torch.empty(0, dtype=torch.long, device=input.device)
-        torch.abs((input >> rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
+        torch.abs((input / 2**rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
         torch.clamp(buf_i, 0, cycle-1, out=buf_i)
         
         # actual input: its sign
@@ -457,7 +457,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale weight with batch to range 0~2^widthw-1
         buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
-        torch.abs((weight >> rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
+        torch.abs((weight / 2**rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
         torch.clamp(buf_w_no_batch, 0, cycle-1, out=buf_w_no_batch)
         buf_w = torch.empty(0, dtype=torch.long, device=weight.device)
         torch.cat(batch*[buf_w_no_batch], 0, out=buf_w)
@@ -473,7 +473,7 @@ class HUBLinearFunction(torch.autograd.Function):
         output = torch.empty(0, device=weight.device)
         torch.matmul(act_input, act_wght.transpose(1, 2), out=output)
         
-        output = (output >> rshift_o).squeeze_(1)
+        output = (output / 2**rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -584,7 +584,7 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_i = 1 - max_abs_i
         top_i = max_abs_i - 1
         i_round = torch.empty(0, device=input.device)
-        torch.round(input >> rshift_i, out=i_round)
+        torch.round(input / 2**rshift_i, out=i_round)
         torch.clamp(i_round.unsqueeze_(1), bot_i, top_i, out=i_round)
         
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
@@ -594,12 +594,12 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_w = 1 - max_abs_w
         top_w = max_abs_w - 1
         w_round = torch.empty(0, device=input.device)
-        torch.round(weight >> rshift_w, out=w_round)
+        torch.round(weight / 2**rshift_w, out=w_round)
         torch.clamp(w_round.unsqueeze_(0), bot_w, top_w, out=w_round)
         
         output = torch.empty(0, device=weight.device)
         torch.matmul(i_round, w_round.transpose(1, 2), out=output)
-        output = (output >> rshift_o).squeeze_(1)
+        output = (output / 2**rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -781,29 +781,29 @@ class TLUTLinearFXPFXPFunction(torch.autograd.Function):
 
         rshift_i, rshift_w, _ = rshift_offset(input_fp32, weight_fp32, widthi, widthw, rounding, quantilei, quantilew)
         
-        torch.trunc((input_fp32 >> rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
-        torch.trunc((weight_fp32 >> rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
+        torch.trunc((input_fp32 / 2**rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
+        torch.trunc((weight_fp32 / 2**rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
 
         if temporal in ["i", "input"]:
             frac = torch.zeros_like(input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = input_fp32 / 2**widtht
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + widthi + rshift_i)).type(weight.type())
-            weight_new = (weight_fp32 << rshift_w).type(weight.type())
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, input_new / 2**widtht, out=input_new)
+            input_new = (input_new * 2**(delta + widthi + rshift_i)).type(weight.type())
+            weight_new = (weight_fp32 * 2**rshift_w).type(weight.type())
         elif temporal in ["w", "weight"]:
             frac = torch.zeros_like(weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = weight_fp32 / 2**widtht
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
-            input_new = (input_fp32 << rshift_i).type(input.type())
-            weight_new = (weight_new << (delta + widthw + rshift_w)).type(input.type())
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, weight_new / 2**widtht, out=weight_new)
+            input_new = (input_fp32 * 2**rshift_i).type(input.type())
+            weight_new = (weight_new * 2**(delta + widthw + rshift_w)).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -853,27 +853,27 @@ class TLUTLinearFXPFPFunction(torch.autograd.Function):
         if temporal in ["i", "input"]:
             input_new = torch.zeros_like(input_fp32)
             frac = torch.zeros_like(input_fp32)
-            torch.trunc((input_fp32 >> rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
+            torch.trunc((input_fp32 / 2**rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = input_fp32 / 2**widtht
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + width + rshift_i)).type(weight.type())
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, input_new / 2**widtht, out=input_new)
+            input_new = (input_new * 2**(delta + width + rshift_i)).type(weight.type())
             weight_new = weight
         elif temporal in ["w", "weight"]:
             weight_new = torch.zeros_like(weight_fp32)
             frac = torch.zeros_like(weight_fp32)
-            torch.trunc((weight_fp32 >> rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
+            torch.trunc((weight_fp32 / 2**rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = weight_fp32 / 2**widtht
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, weight_new / 2**widtht, out=weight_new)
             input_new = input
-            weight_new = (weight_new << (delta + width + rshift_w)).type(input.type())
+            weight_new = (weight_new * 2**(delta + width + rshift_w)).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -929,15 +929,15 @@ class TLUTLinearFPFPFunction(torch.autograd.Function):
             frac = torch.zeros_like(weight_fp32)
             mantissa_new = torch.zeros_like(weight_fp32)
 
-        mantissa = mantissa << width
+        mantissa = mantissa * 2**width
         for i in range(degree):
-            mantissa = mantissa >> widtht
+            mantissa = mantissa / 2**widtht
             torch.frac(mantissa, out=frac)
             torch.trunc(mantissa, out=mantissa)
-            torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-            torch.add(frac >> widtht, mantissa_new >> widtht, out=mantissa_new)
+            torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+            torch.add(frac / 2**widtht, mantissa_new / 2**widtht, out=mantissa_new)
 
-        mantissa_new = mantissa_new << delta
+        mantissa_new = mantissa_new * 2**delta
 
         if temporal in ["i", "input"]:
             input_new = torch.ldexp(mantissa_new, exponent).type(dtype)
-- 
2.43.0


From 04a1caa20acbd4006689aff0baa70c06903d77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 02/20] fix: FSUReLU stores its accumulator in btype and
 returns stype, not the reverse

---
 kernel/relu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/relu.py b/kernel/relu.py
index 156cd91..6daeb89 100644
--- a/kernel/relu.py
+++ b/kernel/relu.py
@@ -23,8 +23,8 @@ class FSUReLU(torch.nn.Module):
         self.swcfg["stype"] = swcfg["stype"]
 
         self.depth = hwcfg["depth"]
-        self.stype = swcfg["btype"]
-        self.btype = swcfg["stype"]
+        self.btype = swcfg["btype"]
+        self.stype = swcfg["stype"]
 
         self.buf_max = 2**self.depth - 1
         self.buf_half = 2**(self.depth - 1)
-- 
2.43.0


From d94c8cb138ae1987dc6d8855f98ccd68b1724949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 03/20] fix: JKFF returns its output bits, not the live state
 parameter, for int8 streams

---
 kernel/jkff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/jkff.py b/kernel/jkff.py
index b0f3935..287f1b8 100644
--- a/kernel/jkff.py
+++ b/kernel/jkff.py
@@ -28,6 +28,6 @@ class JKFF(torch.nn.Module):
         j1k1 = j1 & k1
         
         self.jkff.data = j0k0 * self.jkff + j1k0 * torch.ones_like(J, dtype=torch.int8) + j0k1 * torch.zeros_like(J, dtype=torch.int8) + j1k1 * (1 - self.jkff)
-        return self.jkff.type(self.stype)
+        return self.jkff.data.clone().type(self.stype)
 
     
\ No newline at end of file
-- 
2.43.0


From 3471b70711bc9edb3448735624426c44c4816a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 04/20] fix: Correlation accepts bitstreams of any shape, its
 counters grow on the first cycle

---
 metric/metric.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metric/metric.py b/metric/metric.py
index 175ad52..cdc7aa4 100644
--- a/metric/metric.py
+++ b/metric/metric.py
@@ -23,10 +23,10 @@ class Correlation(torch.nn.Module):
         in_1_is_1 = 1 - in_1_is_0
         in_2_is_0 = torch.eq(in_2, 0).type(torch.float)
         in_2_is_1 = 1 - in_2_is_0
-        self.paired_00_d.data.add_(in_1_is_0 * in_2_is_0)
-        self.paired_01_c.data.add_(in_1_is_0 * in_2_is_1)
-        self.paired_10_b.data.add_(in_1_is_1 * in_2_is_0)
-        self.paired_11_a.data.add_(in_1_is_1 * in_2_is_1)
+        self.paired_00_d.data = self.paired_00_d.data.add(in_1_is_0 * in_2_is_0)
+        self.paired_01_c.data = self.paired_01_c.data.add(in_1_is_0 * in_2_is_1)
+        self.paired_10_b.data = self.paired_10_b.data.add(in_1_is_1 * in_2_is_0)
+        self.paired_11_a.data = self.paired_11_a.data.add(in_1_is_1 * in_2_is_1)
         self.len.data.add_(1)
     
     def forward(self):
-- 
2.43.0


From f33a4b760ba4c7ade5a6ce945dd9b667571b96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 05/20] fix: FSUConv2d pads height and width as given by a
 (height, width) padding

---
 kernel/conv.py | 1562 ++++++++++++++++++++++++------------------------
 1 file changed, 782 insertions(+), 780 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index 75086b6..d3042d1 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -1,780 +1,782 @@
-import torch
-import math
-import copy
-from UnarySim.stream import RNG, BinGen, BSGen
-from UnarySim.kernel import conv2d_output_shape, num2tuple
-from UnarySim.kernel import HUBLinearFunction
-from UnarySim.kernel import FXPLinearFunction
-from UnarySim.kernel import TLUTLinearFXPFXPFunction, TLUTLinearFXPFPFunction, TLUTLinearFPFPFunction
-from UnarySim.kernel import FSUAdd, rshift_offset
-from torch.cuda.amp import autocast
-
-class FSUConv2d(torch.nn.Module):
-    """
-    This module is for convolution with unary input and output
-    """
-    def __init__(
-        self, 
-        in_channels, 
-        out_channels, 
-        kernel_size, 
-        stride=1, 
-        padding=0, 
-        dilation=1, 
-        groups=1, 
-        bias=True, 
-        padding_mode='zeros', 
-        weight_ext=None, 
-        bias_ext=None, 
-        hwcfg={
-            "width" : 8,
-            "mode" : "bipolar",
-            "scale" : None,
-            "depth" : 12,
-            "rng" : "Sobol",
-            "dimr" : 1
-        },
-        swcfg={
-            "btype" : torch.float, 
-            "rtype" : torch.float, 
-            "stype" : torch.float
-        }):
-        super(FSUConv2d, self).__init__()
-
-        self.hwcfg = {}
-        self.hwcfg["width"] = hwcfg["width"]
-        self.hwcfg["mode"] = hwcfg["mode"].lower()
-        self.hwcfg["scale"] = hwcfg["scale"]
-        self.hwcfg["depth"] = hwcfg["depth"]
-        self.hwcfg["rng"] = hwcfg["rng"].lower()
-        self.hwcfg["dimr"] = hwcfg["dimr"]
-
-        self.swcfg = {}
-        self.swcfg["btype"] = swcfg["btype"]
-        self.swcfg["rtype"] = swcfg["rtype"]
-        self.swcfg["stype"] = swcfg["stype"]
-
-        if (hwcfg["mode"].lower() == "bipolar") and (hwcfg["scale"] is not None) and (hwcfg["scale"] != (math.prod(num2tuple(kernel_size)) * in_channels + bias)):
-            assert self.hwcfg["rng"].lower() not in ["race", "tc", "race10", "tc10"], \
-                "Error: the hw config 'rng' in " + str(self) + " class should avoid ['race', 'tc', 'race10', 'tc10'] for bipolar data with non-scaled addition."
-
-        assert self.swcfg["btype"] == torch.float, \
-            "Error: the sw config 'btype' in " + str(self) + " class requires 'torch.float'."
-        assert self.swcfg["rtype"] == torch.float, \
-            "Error: the sw config 'rtype' in " + str(self) + " class requires 'torch.float'."
-        assert self.swcfg["stype"] == torch.float, \
-            "Error: the sw config 'stype' in " + str(self) + " class requires 'torch.float'."
-
-        self.PC = FSUConv2dPC(
-            in_channels, 
-            out_channels, 
-            kernel_size, 
-            stride=stride, 
-            padding=padding, 
-            dilation=dilation, 
-            groups=groups, 
-            bias=bias, 
-            padding_mode=padding_mode, 
-            weight_ext=weight_ext, 
-            bias_ext=bias_ext, 
-            hwcfg=self.hwcfg,
-            swcfg=self.swcfg)
-        
-        self.scale = hwcfg["scale"]
-        if self.scale is None:
-            scale_add = math.prod(num2tuple(kernel_size)) * in_channels + bias
-        else:
-            scale_add = self.scale
-        hwcfg_acc = copy.deepcopy(self.hwcfg)
-        hwcfg_acc["scale"] = scale_add
-        hwcfg_acc["entry"] = math.prod(num2tuple(kernel_size)) * in_channels + bias
-        # the pc result is unsqueezed before fed to the accumulator, so accumulation dim of FSUAdd is 0.
-        hwcfg_acc["dima"] = 0
-        self.ACC = FSUAdd(
-            hwcfg_acc,
-            self.swcfg)
-
-    @autocast()
-    def forward(self, input, scale=None, entry=None):
-        pc = self.PC(input)
-        output = self.ACC(pc.unsqueeze(0), scale, entry)
-        return output
-
-
-class FSUConv2dPC(torch.nn.Conv2d):
-    """
-    This module is the parallel counter result of FSUConv2dPC before generating the bitstreams.
-    The allowed coding for input, weight and bias with guaranteed accuracy can have the following three options.
-    (input, weight, bias):
-    1) rate, rate, rate
-    2) rate, temporal, rate
-    3) temporal, rate, rate
-    However, this module itself does not force the input coding. Thus, above coding constraints should be done by users.
-    """
-    def __init__(
-        self, 
-        in_channels, 
-        out_channels, 
-        kernel_size, 
-        stride=1, 
-        padding=0, 
-        dilation=1, 
-        groups=1, 
-        bias=True, 
-        padding_mode='zeros', 
-        weight_ext=None, 
-        bias_ext=None, 
-        hwcfg={
-            "width" : 8,
-            "mode" : "bipolar",
-            "rng" : "Sobol",
-            "dimr" : 1
-        },
-        swcfg={
-            "btype" : torch.float, 
-            "rtype" : torch.float, 
-            "stype" : torch.float
-        }):
-        super(FSUConv2dPC, self).__init__(in_channels, out_channels, kernel_size, 
-                                        stride=stride, padding=padding, dilation=dilation, groups=groups, bias=bias, padding_mode=padding_mode)
-        
-        self.hwcfg = {}
-        self.hwcfg["width"] = hwcfg["width"]
-        self.hwcfg["mode"] = hwcfg["mode"].lower()
-        self.hwcfg["rng"] = hwcfg["rng"].lower()
-        self.hwcfg["dimr"] = hwcfg["dimr"]
-
-        self.swcfg = {}
-        self.swcfg["btype"] = swcfg["btype"]
-        self.swcfg["rtype"] = swcfg["rtype"]
-        self.swcfg["stype"] = swcfg["stype"]
-        
-        self.mode = hwcfg["mode"].lower()
-        assert self.mode in ["unipolar", "bipolar"], \
-            "Error: the hw config 'mode' in " + str(self) + " class requires one of ['unipolar', 'bipolar']."
-
-        self.in_channels = in_channels
-        self.out_channels = out_channels
-        self.kernel_size = kernel_size
-        self.stride = stride
-        self.padding = padding
-        self.dilation = dilation
-        
-        assert groups == 1, \
-            "Error: the 'groups' in " + str(self) + " class requires to be 1."
-        assert padding_mode == 'zeros', \
-            "Error: the 'padding_mode' in " + str(self) + " class requires to be 'zeros'."
-
-        # bias indication for original linear layer
-        self.has_bias = bias
-        
-        # RNG for weight
-        hwcfg_wrng = {
-            "width" : hwcfg["width"],
-            "rng" : hwcfg["rng"],
-            "dimr" : hwcfg["dimr"]
-        }
-        self.wrng = RNG(hwcfg_wrng, swcfg)()
-        if hwcfg["rng"].lower() in ["race", "tc", "race10", "tc10"]:
-            self.wtc = True
-        else:
-            self.wtc = False
-
-        # define the linear weight and bias
-        if weight_ext is not None:
-            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
-                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
-            self.weight.data = BinGen(weight_ext, self.hwcfg, self.swcfg)()
-        
-        if bias and (bias_ext is not None):
-            assert bias_ext.size()[0] == out_channels, \
-                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
-            self.bias.data = BinGen(bias_ext, self.hwcfg, self.swcfg)()
-            # RNG for bias, same as RNG for weight
-            hwcfg_brng = {
-                "width" : hwcfg["width"],
-                "rng" : hwcfg["rng"],
-                "dimr" : hwcfg["dimr"]
-            }
-            self.brng = RNG(hwcfg_brng, swcfg)()
-
-        # define the kernel linear for input bit 1
-        self.wbsg_i1 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
-        self.wrdx_i1 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
-        if self.has_bias is True:
-            self.bbsg = BSGen(self.bias, self.brng, swcfg)
-            self.brdx = torch.nn.Parameter(torch.zeros_like(self.bias, dtype=torch.long), requires_grad=False)
-        
-        # if bipolar, define a kernel for input bit 0, note that there is no bias required for this kernel
-        if (self.mode == "bipolar") and (self.wtc is False):
-            self.wbsg_i0 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
-            self.wrdx_i0 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
-            
-        # indicator of even/odd cycle
-        self.even_cycle_flag = torch.nn.Parameter(torch.ones(1, dtype=torch.bool), requires_grad=False)
-        self.padding_0 = torch.nn.ConstantPad2d(self.padding, 0)
-        self.padding_1 = torch.nn.ConstantPad2d(self.padding, 1)
-        self.bipolar_mode = torch.nn.Parameter(torch.tensor([self.mode == "bipolar"], dtype=torch.bool), requires_grad=False)
-
-    def FSUConv2d_PC_wrc(self, input):
-        output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
-
-        if True in self.even_cycle_flag:
-            input_padding = self.padding_0(input)
-        else:
-            input_padding = self.padding_1(input)
-
-        # if unipolar mode, even_cycle_flag is always False to pad 0.
-        self.even_cycle_flag.data = self.bipolar_mode ^ self.even_cycle_flag
-
-        # See the autograd section for explanation of what happens here.
-        input_im2col = torch.nn.functional.unfold(input_padding, self.kernel_size, self.dilation, 0, self.stride)
-        input_transpose = input_im2col.transpose(1, 2)
-        input_reshape = input_transpose.reshape(-1, 1, input_transpose.size()[-1])
-
-        # first dim should always be batch
-        batch = input_reshape.size()[0]
-
-        # generate weight and bias bits for current cycle
-        wbit_i1 = self.wbsg_i1(self.wrdx_i1).type(torch.float)
-        if wbit_i1.size()[0] != batch:
-            wbit_i1 = torch.cat(batch*[wbit_i1], 0)
-            self.wrdx_i1 = torch.cat(batch*[self.wrdx_i1], 0)
-        torch.add(self.wrdx_i1, input_reshape.type(torch.long), out=self.wrdx_i1)
-        
-        ibit_i1 = input_reshape.type(torch.float)
-        obin_i1 = torch.empty(0, device=input.device)
-        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
-        obin_i1.squeeze_(1)
-        
-        obin_reshape_i1 = obin_i1.reshape(input.size()[0], -1, obin_i1.size()[-1])
-        obin_transpose_i1 = obin_reshape_i1.transpose(1, 2)
-        obin_fold_i1 = torch.nn.functional.fold(obin_transpose_i1, output_size, (1, 1))
-
-        if self.has_bias is True:
-            bbit = self.bbsg(self.brdx).type(torch.float)
-            self.brdx.add_(1)
-            obin_fold_i1 += bbit.view(1, -1, 1, 1).expand_as(obin_fold_i1)
-
-        if self.mode == "unipolar":
-            return obin_fold_i1
-        
-        if self.mode == "bipolar":
-            # generate weight and bias bits for current cycle
-            wbit_i0 = 1 - self.wbsg_i0(self.wrdx_i0).type(torch.float)
-            if wbit_i0.size()[0] != batch:
-                wbit_i0 = torch.cat(batch*[wbit_i0], 0)
-                self.wrdx_i0 = torch.cat(batch*[self.wrdx_i0], 0)
-            torch.add(self.wrdx_i0, 1 - input_reshape.type(torch.long), out=self.wrdx_i0)
-            
-            ibit_i0 = 1 - ibit_i1
-            obin_i0 = torch.empty(0, device=input.device)
-            torch.matmul(ibit_i0, wbit_i0.transpose(1, 2), out=obin_i0)
-            obin_i0.squeeze_(1)
-            
-            obin_reshape_i0 = obin_i0.reshape(input.size()[0], -1, obin_i0.size()[-1])
-            obin_transpose_i0 = obin_reshape_i0.transpose(1, 2)
-            obin_fold_i0 = torch.nn.functional.fold(obin_transpose_i0, output_size, (1, 1))
-
-            return obin_fold_i1 + obin_fold_i0
-    
-    def FSUConv2d_PC_wtc(self, input):
-        output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
-
-        if True in self.even_cycle_flag:
-            input_padding = self.padding_0(input)
-        else:
-            input_padding = self.padding_1(input)
-
-        # if unipolar mode, even_cycle_flag is always False to pad 0.
-        self.even_cycle_flag.data = self.bipolar_mode ^ self.even_cycle_flag
-
-        # See the autograd section for explanation of what happens here.
-        input_im2col = torch.nn.functional.unfold(input_padding, self.kernel_size, self.dilation, 0, self.stride)
-        input_transpose = input_im2col.transpose(1, 2)
-        input_reshape = input_transpose.reshape(-1, 1, input_transpose.size()[-1])
-
-        # first dim should always be batch
-        batch = input_reshape.size()[0]
-
-        # generate weight and bias bits for current cycle
-        wbit_i1 = self.wbsg_i1(self.wrdx_i1).type(torch.float)
-        if wbit_i1.size()[0] != batch:
-            wbit_i1 = torch.cat(batch*[wbit_i1], 0)
-            self.wrdx_i1 = torch.cat(batch*[self.wrdx_i1], 0)
-        torch.add(self.wrdx_i1, torch.ones_like(input_reshape).type(torch.long), out=self.wrdx_i1)
-        
-        ibit_i1 = input_reshape.type(torch.float)
-        obin_i1 = torch.empty(0, device=input.device)
-        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
-        obin_i1.squeeze_(1)
-        
-        obin_reshape_i1 = obin_i1.reshape(input.size()[0], -1, obin_i1.size()[-1])
-        obin_transpose_i1 = obin_reshape_i1.transpose(1, 2)
-        obin_fold_i1 = torch.nn.functional.fold(obin_transpose_i1, output_size, (1, 1))
-
-        if self.has_bias is True:
-            bbit = self.bbsg(self.brdx).type(torch.float)
-            self.brdx.add_(1)
-            obin_fold_i1 += bbit.view(1, -1, 1, 1).expand_as(obin_fold_i1)
-
-        if self.mode == "unipolar":
-            return obin_fold_i1
-        
-        if self.mode == "bipolar":
-            # generate weight and bias bits for current cycle
-            wbit_i0 = 1 - wbit_i1
-            ibit_i0 = 1 - ibit_i1
-            obin_i0 = torch.empty(0, device=input.device)
-            torch.matmul(ibit_i0, wbit_i0.transpose(1, 2), out=obin_i0)
-            obin_i0.squeeze_(1)
-            
-            obin_reshape_i0 = obin_i0.reshape(input.size()[0], -1, obin_i0.size()[-1])
-            obin_transpose_i0 = obin_reshape_i0.transpose(1, 2)
-            obin_fold_i0 = torch.nn.functional.fold(obin_transpose_i0, output_size, (1, 1))
-
-            return obin_fold_i1 + obin_fold_i0
-
-    @autocast()
-    def forward(self, input):
-        if self.wtc:
-            return self.FSUConv2d_PC_wtc(input).type(self.swcfg["stype"])
-        else:
-            return self.FSUConv2d_PC_wrc(input).type(self.swcfg["stype"])
-
-
-class HUBConv2d(torch.nn.Conv2d):
-    """
-    This module is the fully connected layer for binary signed data in fxp format using unary computing.
-    The hardware configuration specifies 
-    1) the data with in bit for input and weight/bias
-    2) the rng type for input and weight/bias
-    3) the quantile to quantize input and weight/bias
-    4) the cycle to early terminate the run
-    5) the rounding mode for both input and weight/bias
-    6) whether to use sign-magnitude format for both input and weight/bias, which can reduce the number of max cycle count to run
-    """
-    def __init__(
-        self, 
-        in_channels, 
-        out_channels, 
-        kernel_size, 
-        stride=1, 
-        padding=0, 
-        dilation=1, 
-        groups=1, 
-        bias=True, 
-        padding_mode='zeros', 
-        weight_ext=None, 
-        bias_ext=None, 
-        hwcfg={
-            "widthi" : 8,
-            "rngi" : "Sobol",
-            "quantilei" : 1,
-            "widthw" : 8,
-            "rngw" : "Sobol",
-            "quantilew" : 1,
-            "cycle" : 128,
-            "rounding" : "round",
-            "signmag" : True
-        }):
-        super(HUBConv2d, self).__init__(in_channels, 
-                                            out_channels, 
-                                            kernel_size, 
-                                            stride, 
-                                            padding, 
-                                            dilation, 
-                                            groups, 
-                                            bias, 
-                                            padding_mode)
-        self.hwcfg = {}
-        self.hwcfg["widthi"] = hwcfg["widthi"]
-        self.hwcfg["rngi"] = hwcfg["rngi"].lower()
-        self.hwcfg["quantilei"] = hwcfg["quantilei"]
-        self.hwcfg["widthw"] = hwcfg["widthw"]
-        self.hwcfg["rngw"] = hwcfg["rngw"].lower()
-        self.hwcfg["quantilew"] = hwcfg["quantilew"]
-        self.hwcfg["rounding"] = hwcfg["rounding"].lower()
-        self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
-
-        self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
-        self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
-
-        assert not (self.itc and self.wtc), \
-            "Error: the hw config 'rngi' and 'rngw' in " + str(self) + " class can't adopt temporal coding simultaneously."
-
-        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
-            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
-        
-        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
-            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
-
-        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
-            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
-
-        assert self.hwcfg["signmag"] is True, \
-            "Error: the hw config 'signmag' of " + str(self) + " class requires to be True, i.e., always computing on sign-magnitue data, for diverse architectures."
-
-        # maximum possible run cycle
-        self.cycle_max = 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"])
-        # actual run cycle
-        self.cycle_act = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
-
-        assert groups == 1, \
-            "Error: the 'groups' in " + str(self) + " class requires to be 1."
-        assert padding_mode == 'zeros', \
-            "Error: the 'padding_mode' in " + str(self) + " class requires to be 'zeros'."
-
-        # weight and bias
-        if weight_ext is not None:
-            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
-                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
-            self.weight.data = weight_ext
-        
-        if bias and (bias_ext is not None):
-            assert bias_ext.size()[0] == out_channels, \
-                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
-            self.bias.data = bias_ext
-
-        swcfg={
-            "btype" : torch.float,
-            "rtype" : torch.float,
-            "stype" : torch.float
-        }
-
-        # random_sequence from RNG
-        hwcfg_irng = {
-            "width" : self.hwcfg["widthi"] - self.hwcfg["signmag"], 
-            "dimr" : 1, 
-            "rng" : self.hwcfg["rngi"]
-        }
-        self.irng = RNG(hwcfg_irng, swcfg)()
-        hwcfg_wrng = {
-            "width" : self.hwcfg["widthw"] - self.hwcfg["signmag"], 
-            "dimr" : 1, 
-            "rng" : self.hwcfg["rngw"]
-        }
-        self.wrng = RNG(hwcfg_wrng, swcfg)()
-
-        if (self.itc) and (not self.wtc):
-            # cbsg controller is input
-            self.rngctler = self.irng
-            self.rngctlee = self.wrng
-        elif (not self.itc) and (self.wtc):
-            # cbsg controller is weight
-            self.rngctler = self.wrng
-            self.rngctlee = self.irng
-        elif (not self.itc) and (not self.wtc):
-            # when rate coding is applied to both input and weight, always control weight with input
-            # the hardware cost of doing this is similar to the opposite
-            self.rngctler = self.irng
-            self.rngctlee = self.wrng
-        
-        # generate the value map for mul using current rng
-        # dim 0 is input index
-        # the tensor input value is the actual value produced by the rngctler
-        self.mapctler = torch.nn.Parameter(torch.empty(self.cycle_max), requires_grad=False)
-        cycle_ctlerval = torch.empty(0)
-        torch.cat(self.cycle_max*[torch.arange(self.cycle_max, dtype=torch.float).unsqueeze(1)], 1, out=cycle_ctlerval)
-        cycle_ctlerbit = torch.empty(0)
-        torch.gt(cycle_ctlerval, self.rngctler.unsqueeze(0), out=cycle_ctlerbit)
-        self.mapctler.data = torch.sum(cycle_ctlerbit, 1).squeeze_().type(torch.long)
-
-        # dim 0 is input index, dim 1 is weight index
-        # the tensor value is the actual weight value produced by the rngctlee, under a specific input and weight
-        self.mapctlee = torch.nn.Parameter(torch.empty(self.cycle_max, self.cycle_max), requires_grad=False)
-        cycle_ctleebit = torch.empty(0)
-        torch.gt(cycle_ctlerval, self.rngctlee.unsqueeze(0), out=cycle_ctleebit)
-        for c in range(self.cycle_max):
-            self.mapctlee.data[c] = torch.sum(cycle_ctleebit[:, 0:self.mapctler.data[c]], 1).squeeze_()
-        
-        self.rshift_i = None
-        self.rshift_w = None
-        self.rshift_o = None
-    
-    @autocast()
-    def forward(self, input):
-        # See the autograd section for explanation of what happens here.
-        self.rshift_i, self.rshift_w, self.rshift_o = \
-            rshift_offset(input, self.weight, self.hwcfg["widthi"] - self.hwcfg["signmag"], self.hwcfg["widthw"] - self.hwcfg["signmag"], self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
-        
-        with torch.no_grad():
-            # all data are in NCHW
-            output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
-
-        input_im2col = torch.nn.functional.unfold(input, self.kernel_size, self.dilation, self.padding, self.stride)
-        input_transpose = input_im2col.transpose(1, 2)
-        input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
-
-        weight = self.weight.view(self.weight.size()[0], -1)
-        mm_out = HUBLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.cycle_act, self.mapctlee)
-        mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
-        mm_out_transpose = mm_out_reshape.transpose(1, 2)
-        output = torch.nn.functional.fold(mm_out_transpose, output_size, (1, 1))
-
-        if self.bias is None:
-            return output
-        else:
-            return output + self.bias.view([1, self.bias.size()[0], 1, 1])
-
-
-class FXPConv2d(torch.nn.Conv2d):
-    """
-    This module is the 2d conv layer, with binary input and binary output
-    """
-    def __init__(
-        self, 
-        in_channels, 
-        out_channels, 
-        kernel_size, 
-        stride=1, 
-        padding=0, 
-        dilation=1, 
-        groups=1, 
-        bias=True, 
-        padding_mode='zeros', 
-        weight_ext=None, 
-        bias_ext=None, 
-        hwcfg={
-            "widthi" : 8,
-            "quantilei" : 1,
-            "widthw" : 8,
-            "quantilew" : 1,
-            "rounding" : "round"
-        }):
-        super(FXPConv2d, self).__init__(in_channels, 
-                                            out_channels, 
-                                            kernel_size, 
-                                            stride, 
-                                            padding, 
-                                            dilation, 
-                                            groups, 
-                                            bias, 
-                                            padding_mode)
-
-        assert groups==1, "Supported group number is 1."
-        assert padding_mode=='zeros', "Supported padding_mode number is 'zeros'."
-        self.hwcfg = {}
-        self.hwcfg["widthi"] = hwcfg["widthi"]
-        self.hwcfg["quantilei"] = hwcfg["quantilei"]
-        self.hwcfg["widthw"] = hwcfg["widthw"]
-        self.hwcfg["quantilew"] = hwcfg["quantilew"]
-        self.hwcfg["rounding"] = hwcfg["rounding"].lower()
-        
-        # weight and bias
-        if weight_ext is not None:
-            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
-                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
-            self.weight.data = weight_ext
-        
-        if bias and (bias_ext is not None):
-            assert bias_ext.size()[0] == out_channels, \
-                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
-            self.bias.data = bias_ext
-        
-        # max abs value
-        self.max_abs_i = 2**self.hwcfg["widthi"]
-        self.max_abs_w = 2**self.hwcfg["widthw"]
-        
-        self.rshift_i = None
-        self.rshift_w = None
-        self.rshift_o = None
-    
-    @autocast()
-    def forward(self, input):
-        # See the autograd section for explanation of what happens here.
-        self.rshift_i, self.rshift_w, _ = \
-            rshift_offset(input, self.weight, self.hwcfg["widthi"] - 1, self.hwcfg["widthw"] - 1, self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
-        self.rshift_o = 0 - self.rshift_i - self.rshift_w
-
-        with torch.no_grad():
-            # all data are in NCHW
-            output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
-
-        # See the autograd section for explanation of what happens here.
-        input_im2col = torch.nn.functional.unfold(input, self.kernel_size, self.dilation, self.padding, self.stride)
-        input_transpose = input_im2col.transpose(1, 2)
-        input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
-
-        weight = self.weight.view(self.weight.size()[0], -1)
-        mm_out = FXPLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.max_abs_i, self.max_abs_w)
-        mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
-        mm_out_transpose = mm_out_reshape.transpose(1, 2)
-        output = torch.nn.functional.fold(mm_out_transpose, output_size, (1, 1))
-
-        if self.bias is None:
-            return output
-        else:
-            return output + self.bias.view([1, self.bias.size()[0], 1, 1])
-
-
-
-class TLUTConv2d(torch.nn.Conv2d):
-    """
-    This module is the 2d conv layer using temporal look-up table (T-LUT). 
-    This module always applies sign-magnitude format for temporal bitstreams.
-    The hardware configuration specifies
-    1) the variable to produce temporal coded bitstreams
-    2) the format with in bit for input and weight/bias, only used for temporal coded fxp data
-    3) the data with in bit for input and weight/bias, as well as for the temporal coded bitstreams
-    4) the quantile to quantize input and weight/bias, only used for temporal coded fxp datas
-    5) the cycle to early terminate the run
-    6) the rounding mode for both input and weight/bias, only used for temporal coded fxp datas
-    """
-    def __init__(
-        self, 
-        in_channels, 
-        out_channels, 
-        kernel_size, 
-        stride=1, 
-        padding=0, 
-        dilation=1, 
-        groups=1, 
-        bias=True, 
-        padding_mode='zeros', 
-        weight_ext=None, 
-        bias_ext=None, 
-        hwcfg={
-            "temporal" : "i",
-            "widtht" : 4,
-            "formati" : "fxp",
-            "widthi" : 8,
-            "quantilei" : 1,
-            "formatw" : "fxp",
-            "widthw" : 8,
-            "quantilew" : 1,
-            "cycle" : None,
-            "rounding" : "round",
-            "signmag" : True
-        }):
-        super(TLUTConv2d, self).__init__(in_channels, 
-                                            out_channels, 
-                                            kernel_size, 
-                                            stride, 
-                                            padding, 
-                                            dilation, 
-                                            groups, 
-                                            bias, 
-                                            padding_mode)
-
-        assert groups==1, "Supported group number is 1."
-        assert padding_mode=='zeros', "Supported padding_mode number is 'zeros'."
-        self.hwcfg = {}
-        self.hwcfg["temporal"] = hwcfg["temporal"].lower()
-        self.hwcfg["widtht"] = hwcfg["widtht"]
-        self.hwcfg["formati"] = hwcfg["formati"].lower()
-        self.hwcfg["widthi"] = hwcfg["widthi"]
-        self.hwcfg["quantilei"] = hwcfg["quantilei"]
-        self.hwcfg["formatw"] = hwcfg["formatw"].lower()
-        self.hwcfg["widthw"] = hwcfg["widthw"]
-        self.hwcfg["quantilew"] = hwcfg["quantilew"]
-        self.hwcfg["cycle"] = hwcfg["cycle"]
-        self.hwcfg["rounding"] = hwcfg["rounding"].lower()
-        self.hwcfg["signmag"] = hwcfg["signmag"]
-
-        assert self.hwcfg["temporal"] in ["i", "w", "input", "weight"], \
-            "Error: the hw config 'temporal' in " + str(self) + " class requires one of ['i', 'input', 'w', 'weight']."
-
-        assert self.hwcfg["formati"] in ["fxp", "bfloat16", "float16", "float32"], \
-            "Error: the hw config 'formati' in " + str(self) + " class requires one of ['fxp', 'bfloat16', 'float16', 'float32']."
-        
-        assert self.hwcfg["formatw"] in ["fxp", "bfloat16", "float16", "float32"], \
-            "Error: the hw config 'formatw' in " + str(self) + " class requires one of ['fxp', 'bfloat16', 'float16', 'float32']."
-
-        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
-            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
-        
-        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
-            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
-
-        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
-            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
-
-        assert self.hwcfg["signmag"] is True, \
-            "Error: the hw config 'signmag' of " + str(self) + " class requires to be True, i.e., always computing on the magnitude of the data."
-        
-        # weight and bias
-        if weight_ext is not None:
-            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
-                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
-            self.weight.data = weight_ext
-        
-        if bias and (bias_ext is not None):
-            assert bias_ext.size()[0] == out_channels, \
-                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
-            self.bias.data = bias_ext
-        
-        if (self.hwcfg["formati"] in ["fxp"]) and (self.hwcfg["formatw"] in ["fxp"]):
-            self.mode = "fxpfxp"
-        elif (self.hwcfg["formati"] not in ["fxp"]) and (self.hwcfg["formatw"] not in ["fxp"]):
-            self.mode = "fpfp"
-        else:
-            self.mode = "fxpfp"
-
-        # maximum possible run cycle
-        self.cycle_max = 2**self.hwcfg["widtht"]
-        # actual run cycle
-        if self.hwcfg["cycle"] is None:
-            self.cycle_act = self.cycle_max
-        else:
-            self.cycle_act = min(self.hwcfg["cycle"], self.cycle_max)
-        self.hwcfg["cycle"] = self.cycle_act
-
-        self.widthi = self.hwcfg["widthi"] - 1
-        self.widthw = self.hwcfg["widthw"] - 1
-
-        if self.hwcfg["temporal"] in ["i", "input"]:
-            if self.hwcfg["formati"] in ["fxp"]:
-                self.width = self.hwcfg["widthi"] - 1
-            elif self.hwcfg["formati"] in ["bfloat16"]:
-                self.width = 8
-            elif self.hwcfg["formati"] in ["float16"]:
-                self.width = 11
-            elif self.hwcfg["formati"] in ["float32"]:
-                self.width = 24
-        elif self.hwcfg["temporal"] in ["w", "weight"]:
-            if self.hwcfg["formatw"] in ["fxp"]:
-                self.width = self.hwcfg["widthw"] - 1
-            elif self.hwcfg["formatw"] in ["bfloat16"]:
-                self.width = 8
-            elif self.hwcfg["formatw"] in ["float16"]:
-                self.width = 11
-            elif self.hwcfg["formatw"] in ["float32"]:
-                self.width = 24
-        
-        self.degree = int(math.ceil(self.width / self.hwcfg["widtht"]))
-        self.delta = int(self.degree * self.hwcfg["widtht"] - self.width)
-    
-    def forward(self, input):
-        with torch.no_grad():
-            # all data are in NCHW
-            output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
-
-        # See the autograd section for explanation of what happens here.
-        input_im2col = torch.nn.functional.unfold(input.type(torch.float), self.kernel_size, self.dilation, self.padding, self.stride).type(input.type())
-        input_transpose = input_im2col.transpose(1, 2)
-        input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
-
-        weight = self.weight.view(self.weight.size()[0], -1)
-        # See the autograd section for explanation of what happens here.
-        if self.mode == "fxpfxp":
-            mm_out = TLUTLinearFXPFXPFunction.apply(input_reshape, weight, None, 
-                self.hwcfg["temporal"], self.widthi, self.widthw, self.hwcfg["widtht"], self.degree, self.delta, self.cycle_act, -self.cycle_act,
-                self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
-        elif self.mode == "fxpfp":
-            mm_out = TLUTLinearFXPFPFunction.apply(input_reshape, weight, None, 
-                self.hwcfg["temporal"], self.width, self.hwcfg["widtht"], self.degree, self.delta, self.cycle_act, -self.cycle_act,
-                self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
-        elif self.mode == "fpfp":
-            mm_out = TLUTLinearFPFPFunction.apply(input_reshape, weight, None, 
-                self.hwcfg["temporal"], self.width, self.hwcfg["widtht"], self.degree, self.delta, self.cycle_act, -self.cycle_act)
-        mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
-        mm_out_transpose = mm_out_reshape.transpose(1, 2)
-        output = torch.nn.functional.fold(mm_out_transpose.type(torch.float), output_size, (1, 1)).type(input.type())
-
-        if self.bias is None:
-            return output
-        else:
-            return output + self.bias.view([1, self.bias.size()[0], 1, 1])
-
+import torch
+import math
+import copy
+from UnarySim.stream import RNG, BinGen, BSGen
+from UnarySim.kernel import conv2d_output_shape, num2tuple
+from UnarySim.kernel import HUBLinearFunction
+from UnarySim.kernel import FXPLinearFunction
+from UnarySim.kernel import TLUTLinearFXPFXPFunction, TLUTLinearFXPFPFunction, TLUTLinearFPFPFunction
+from UnarySim.kernel import FSUAdd, rshift_offset
+from torch.cuda.amp import autocast
+
+class FSUConv2d(torch.nn.Module):
+    """
+    This module is for convolution with unary input and output
+    """
+    def __init__(
+        self, 
+        in_channels, 
+        out_channels, 
+        kernel_size, 
+        stride=1, 
+        padding=0, 
+        dilation=1, 
+        groups=1, 
+        bias=True, 
+        padding_mode='zeros', 
+        weight_ext=None, 
+        bias_ext=None, 
+        hwcfg={
+            "width" : 8,
+            "mode" : "bipolar",
+            "scale" : None,
+            "depth" : 12,
+            "rng" : "Sobol",
+            "dimr" : 1
+        },
+        swcfg={
+            "btype" : torch.float, 
+            "rtype" : torch.float, 
+            "stype" : torch.float
+        }):
+        super(FSUConv2d, self).__init__()
+
+        self.hwcfg = {}
+        self.hwcfg["width"] = hwcfg["width"]
+        self.hwcfg["mode"] = hwcfg["mode"].lower()
+        self.hwcfg["scale"] = hwcfg["scale"]
+        self.hwcfg["depth"] = hwcfg["depth"]
+        self.hwcfg["rng"] = hwcfg["rng"].lower()
+        self.hwcfg["dimr"] = hwcfg["dimr"]
+
+        self.swcfg = {}
+        self.swcfg["btype"] = swcfg["btype"]
+        self.swcfg["rtype"] = swcfg["rtype"]
+        self.swcfg["stype"] = swcfg["stype"]
+
+        if (hwcfg["mode"].lower() == "bipolar") and (hwcfg["scale"] is not None) and (hwcfg["scale"] != (math.prod(num2tuple(kernel_size)) * in_channels + bias)):
+            assert self.hwcfg["rng"].lower() not in ["race", "tc", "race10", "tc10"], \
+                "Error: the hw config 'rng' in " + str(self) + " class should avoid ['race', 'tc', 'race10', 'tc10'] for bipolar data with non-scaled addition."
+
+        assert self.swcfg["btype"] == torch.float, \
+            "Error: the sw config 'btype' in " + str(self) + " class requires 'torch.float'."
+        assert self.swcfg["rtype"] == torch.float, \
+            "Error: the sw config 'rtype' in " + str(self) + " class requires 'torch.float'."
+        assert self.swcfg["stype"] == torch.float, \
+            "Error: the sw config 'stype' in " + str(self) + " class requires 'torch.float'."
+
+        self.PC = FSUConv2dPC(
+            in_channels, 
+            out_channels, 
+            kernel_size, 
+            stride=stride, 
+            padding=padding, 
+            dilation=dilation, 
+            groups=groups, 
+            bias=bias, 
+            padding_mode=padding_mode, 
+            weight_ext=weight_ext, 
+            bias_ext=bias_ext, 
+            hwcfg=self.hwcfg,
+            swcfg=self.swcfg)
+        
+        self.scale = hwcfg["scale"]
+        if self.scale is None:
+            scale_add = math.prod(num2tuple(kernel_size)) * in_channels + bias
+        else:
+            scale_add = self.scale
+        hwcfg_acc = copy.deepcopy(self.hwcfg)
+        hwcfg_acc["scale"] = scale_add
+        hwcfg_acc["entry"] = math.prod(num2tuple(kernel_size)) * in_channels + bias
+        # the pc result is unsqueezed before fed to the accumulator, so accumulation dim of FSUAdd is 0.
+        hwcfg_acc["dima"] = 0
+        self.ACC = FSUAdd(
+            hwcfg_acc,
+            self.swcfg)
+
+    @autocast()
+    def forward(self, input, scale=None, entry=None):
+        pc = self.PC(input)
+        output = self.ACC(pc.unsqueeze(0), scale, entry)
+        return output
+
+
+class FSUConv2dPC(torch.nn.Conv2d):
+    """
+    This module is the parallel counter result of FSUConv2dPC before generating the bitstreams.
+    The allowed coding for input, weight and bias with guaranteed accuracy can have the following three options.
+    (input, weight, bias):
+    1) rate, rate, rate
+    2) rate, temporal, rate
+    3) temporal, rate, rate
+    However, this module itself does not force the input coding. Thus, above coding constraints should be done by users.
+    """
+    def __init__(
+        self, 
+        in_channels, 
+        out_channels, 
+        kernel_size, 
+        stride=1, 
+        padding=0, 
+        dilation=1, 
+        groups=1, 
+        bias=True, 
+        padding_mode='zeros', 
+        weight_ext=None, 
+        bias_ext=None, 
+        hwcfg={
+            "width" : 8,
+            "mode" : "bipolar",
+            "rng" : "Sobol",
+            "dimr" : 1
+        },
+        swcfg={
+            "btype" : torch.float, 
+            "rtype" : torch.float, 
+            "stype" : torch.float
+        }):
+        super(FSUConv2dPC, self).__init__(in_channels, out_channels, kernel_size, 
+                                        stride=stride, padding=padding, dilation=dilation, groups=groups, bias=bias, padding_mode=padding_mode)
+        
+        self.hwcfg = {}
+        self.hwcfg["width"] = hwcfg["width"]
+        self.hwcfg["mode"] = hwcfg["mode"].lower()
+        self.hwcfg["rng"] = hwcfg["rng"].lower()
+        self.hwcfg["dimr"] = hwcfg["dimr"]
+
+        self.swcfg = {}
+        self.swcfg["btype"] = swcfg["btype"]
+        self.swcfg["rtype"] = swcfg["rtype"]
+        self.swcfg["stype"] = swcfg["stype"]
+        
+        self.mode = hwcfg["mode"].lower()
+        assert self.mode in ["unipolar", "bipolar"], \
+            "Error: the hw config 'mode' in " + str(self) + " class requires one of ['unipolar', 'bipolar']."
+
+        self.in_channels = in_channels
+        self.out_channels = out_channels
+        self.kernel_size = kernel_size
+        self.stride = stride
+        self.padding = padding
+        self.dilation = dilation
+        
+        assert groups == 1, \
+            "Error: the 'groups' in " + str(self) + " class requires to be 1."
+        assert padding_mode == 'zeros', \
+            "Error: the 'padding_mode' in " + str(self) + " class requires to be 'zeros'."
+
+        # bias indication for original linear layer
+        self.has_bias = bias
+        
+        # RNG for weight
+        hwcfg_wrng = {
+            "width" : hwcfg["width"],
+            "rng" : hwcfg["rng"],
+            "dimr" : hwcfg["dimr"]
+        }
+        self.wrng = RNG(hwcfg_wrng, swcfg)()
+        if hwcfg["rng"].lower() in ["race", "tc", "race10", "tc10"]:
+            self.wtc = True
+        else:
+            self.wtc = False
+
+        # define the linear weight and bias
+        if weight_ext is not None:
+            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
+                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
+            self.weight.data = BinGen(weight_ext, self.hwcfg, self.swcfg)()
+        
+        if bias and (bias_ext is not None):
+            assert bias_ext.size()[0] == out_channels, \
+                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
+            self.bias.data = BinGen(bias_ext, self.hwcfg, self.swcfg)()
+            # RNG for bias, same as RNG for weight
+            hwcfg_brng = {
+                "width" : hwcfg["width"],
+                "rng" : hwcfg["rng"],
+                "dimr" : hwcfg["dimr"]
+            }
+            self.brng = RNG(hwcfg_brng, swcfg)()
+
+        # define the kernel linear for input bit 1
+        self.wbsg_i1 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
+        self.wrdx_i1 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
+        if self.has_bias is True:
+            self.bbsg = BSGen(self.bias, self.brng, swcfg)
+            self.brdx = torch.nn.Parameter(torch.zeros_like(self.bias, dtype=torch.long), requires_grad=False)
+        
+        # if bipolar, define a kernel for input bit 0, note that there is no bias required for this kernel
+        if (self.mode == "bipolar") and (self.wtc is False):
+            self.wbsg_i0 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
+            self.wrdx_i0 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
+            
+        # indicator of even/odd cycle
+        self.even_cycle_flag = torch.nn.Parameter(torch.ones(1, dtype=torch.bool), requires_grad=False)
+        # ConstantPad2d takes (left, right, top, bottom), while padding is (height, width)
+        pad_h, pad_w = num2tuple(self.padding)
+        self.padding_0 = torch.nn.ConstantPad2d((pad_w, pad_w, pad_h, pad_h), 0)
+        self.padding_1 = torch.nn.ConstantPad2d((pad_w, pad_w, pad_h, pad_h), 1)
+        self.bipolar_mode = torch.nn.Parameter(torch.tensor([self.mode == "bipolar"], dtype=torch.bool), requires_grad=False)
+
+    def FSUConv2d_PC_wrc(self, input):
+        output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
+
+        if True in self.even_cycle_flag:
+            input_padding = self.padding_0(input)
+        else:
+            input_padding = self.padding_1(input)
+
+        # if unipolar mode, even_cycle_flag is always False to pad 0.
+        self.even_cycle_flag.data = self.bipolar_mode ^ self.even_cycle_flag
+
+        # See the autograd section for explanation of what happens here.
+        input_im2col = torch.nn.functional.unfold(input_padding, self.kernel_size, self.dilation, 0, self.stride)
+        input_transpose = input_im2col.transpose(1, 2)
+        input_reshape = input_transpose.reshape(-1, 1, input_transpose.size()[-1])
+
+        # first dim should always be batch
+        batch = input_reshape.size()[0]
+
+        # generate weight and bias bits for current cycle
+        wbit_i1 = self.wbsg_i1(self.wrdx_i1).type(torch.float)
+        if wbit_i1.size()[0] != batch:
+            wbit_i1 = torch.cat(batch*[wbit_i1], 0)
+            self.wrdx_i1 = torch.cat(batch*[self.wrdx_i1], 0)
+        torch.add(self.wrdx_i1, input_reshape.type(torch.long), out=self.wrdx_i1)
+        
+        ibit_i1 = input_reshape.type(torch.float)
+        obin_i1 = torch.empty(0, device=input.device)
+        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
+        obin_i1.squeeze_(1)
+        
+        obin_reshape_i1 = obin_i1.reshape(input.size()[0], -1, obin_i1.size()[-1])
+        obin_transpose_i1 = obin_reshape_i1.transpose(1, 2)
+        obin_fold_i1 = torch.nn.functional.fold(obin_transpose_i1, output_size, (1, 1))
+
+        if self.has_bias is True:
+            bbit = self.bbsg(self.brdx).type(torch.float)
+            self.brdx.add_(1)
+            obin_fold_i1 += bbit.view(1, -1, 1, 1).expand_as(obin_fold_i1)
+
+        if self.mode == "unipolar":
+            return obin_fold_i1
+        
+        if self.mode == "bipolar":
+            # generate weight and bias bits for current cycle
+            wbit_i0 = 1 - self.wbsg_i0(self.wrdx_i0).type(torch.float)
+            if wbit_i0.size()[0] != batch:
+                wbit_i0 = torch.cat(batch*[wbit_i0], 0)
+                self.wrdx_i0 = torch.cat(batch*[self.wrdx_i0], 0)
+            torch.add(self.wrdx_i0, 1 - input_reshape.type(torch.long), out=self.wrdx_i0)
+            
+            ibit_i0 = 1 - ibit_i1
+            obin_i0 = torch.empty(0, device=input.device)
+            torch.matmul(ibit_i0, wbit_i0.transpose(1, 2), out=obin_i0)
+            obin_i0.squeeze_(1)
+            
+            obin_reshape_i0 = obin_i0.reshape(input.size()[0], -1, obin_i0.size()[-1])
+            obin_transpose_i0 = obin_reshape_i0.transpose(1, 2)
+            obin_fold_i0 = torch.nn.functional.fold(obin_transpose_i0, output_size, (1, 1))
+
+            return obin_fold_i1 + obin_fold_i0
+    
+    def FSUConv2d_PC_wtc(self, input):
+        output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
+
+        if True in self.even_cycle_flag:
+            input_padding = self.padding_0(input)
+        else:
+            input_padding = self.padding_1(input)
+
+        # if unipolar mode, even_cycle_flag is always False to pad 0.
+        self.even_cycle_flag.data = self.bipolar_mode ^ self.even_cycle_flag
+
+        # See the autograd section for explanation of what happens here.
+        input_im2col = torch.nn.functional.unfold(input_padding, self.kernel_size, self.dilation, 0, self.stride)
+        input_transpose = input_im2col.transpose(1, 2)
+        input_reshape = input_transpose.reshape(-1, 1, input_transpose.size()[-1])
+
+        # first dim should always be batch
+        batch = input_reshape.size()[0]
+
+        # generate weight and bias bits for current cycle
+        wbit_i1 = self.wbsg_i1(self.wrdx_i1).type(torch.float)
+        if wbit_i1.size()[0] != batch:
+            wbit_i1 = torch.cat(batch*[wbit_i1], 0)
+            self.wrdx_i1 = torch.cat(batch*[self.wrdx_i1], 0)
+        torch.add(self.wrdx_i1, torch.ones_like(input_reshape).type(torch.long), out=self.wrdx_i1)
+        
+        ibit_i1 = input_reshape.type(torch.float)
+        obin_i1 = torch.empty(0, device=input.device)
+        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
+        obin_i1.squeeze_(1)
+        
+        obin_reshape_i1 = obin_i1.reshape(input.size()[0], -1, obin_i1.size()[-1])
+        obin_transpose_i1 = obin_reshape_i1.transpose(1, 2)
+        obin_fold_i1 = torch.nn.functional.fold(obin_transpose_i1, output_size, (1, 1))
+
+        if self.has_bias is True:
+            bbit = self.bbsg(self.brdx).type(torch.float)
+            self.brdx.add_(1)
+            obin_fold_i1 += bbit.view(1, -1, 1, 1).expand_as(obin_fold_i1)
+
+        if self.mode == "unipolar":
+            return obin_fold_i1
+        
+        if self.mode == "bipolar":
+            # generate weight and bias bits for current cycle
+            wbit_i0 = 1 - wbit_i1
+            ibit_i0 = 1 - ibit_i1
+            obin_i0 = torch.empty(0, device=input.device)
+            torch.matmul(ibit_i0, wbit_i0.transpose(1, 2), out=obin_i0)
+            obin_i0.squeeze_(1)
+            
+            obin_reshape_i0 = obin_i0.reshape(input.size()[0], -1, obin_i0.size()[-1])
+            obin_transpose_i0 = obin_reshape_i0.transpose(1, 2)
+            obin_fold_i0 = torch.nn.functional.fold(obin_transpose_i0, output_size, (1, 1))
+
+            return obin_fold_i1 + obin_fold_i0
+
+    @autocast()
+    def forward(self, input):
+        if self.wtc:
+            return self.FSUConv2d_PC_wtc(input).type(self.swcfg["stype"])
+        else:
+            return self.FSUConv2d_PC_wrc(input).type(self.swcfg["stype"])
+
+
+class HUBConv2d(torch.nn.Conv2d):
+    """
+    This module is the fully connected layer for binary signed data in fxp format using unary computing.
+    The hardware configuration specifies 
+    1) the data with in bit for input and weight/bias
+    2) the rng type for input and weight/bias
+    3) the quantile to quantize input and weight/bias
+    4) the cycle to early terminate the run
+    5) the rounding mode for both input and weight/bias
+    6) whether to use sign-magnitude format for both input and weight/bias, which can reduce the number of max cycle count to run
+    """
+    def __init__(
+        self, 
+        in_channels, 
+        out_channels, 
+        kernel_size, 
+        stride=1, 
+        padding=0, 
+        dilation=1, 
+        groups=1, 
+        bias=True, 
+        padding_mode='zeros', 
+        weight_ext=None, 
+        bias_ext=None, 
+        hwcfg={
+            "widthi" : 8,
+            "rngi" : "Sobol",
+            "quantilei" : 1,
+            "widthw" : 8,
+            "rngw" : "Sobol",
+            "quantilew" : 1,
+            "cycle" : 128,
+            "rounding" : "round",
+            "signmag" : True
+        }):
+        super(HUBConv2d, self).__init__(in_channels, 
+                                            out_channels, 
+                                            kernel_size, 
+                                            stride, 
+                                            padding, 
+                                            dilation, 
+                                            groups, 
+                                            bias, 
+                                            padding_mode)
+        self.hwcfg = {}
+        self.hwcfg["widthi"] = hwcfg["widthi"]
+        self.hwcfg["rngi"] = hwcfg["rngi"].lower()
+        self.hwcfg["quantilei"] = hwcfg["quantilei"]
+        self.hwcfg["widthw"] = hwcfg["widthw"]
+        self.hwcfg["rngw"] = hwcfg["rngw"].lower()
+        self.hwcfg["quantilew"] = hwcfg["quantilew"]
+        self.hwcfg["rounding"] = hwcfg["rounding"].lower()
+        self.hwcfg["signmag"] = hwcfg["signmag"]
+        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+
+        self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
+        self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
+
+        assert not (self.itc and self.wtc), \
+            "Error: the hw config 'rngi' and 'rngw' in " + str(self) + " class can't adopt temporal coding simultaneously."
+
+        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
+            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
+        
+        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
+            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
+
+        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
+            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
+
+        assert self.hwcfg["signmag"] is True, \
+            "Error: the hw config 'signmag' of " + str(self) + " class requires to be True, i.e., always computing on sign-magnitue data, for diverse architectures."
+
+        # maximum possible run cycle
+        self.cycle_max = 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"])
+        # actual run cycle
+        self.cycle_act = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+
+        assert groups == 1, \
+            "Error: the 'groups' in " + str(self) + " class requires to be 1."
+        assert padding_mode == 'zeros', \
+            "Error: the 'padding_mode' in " + str(self) + " class requires to be 'zeros'."
+
+        # weight and bias
+        if weight_ext is not None:
+            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
+                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
+            self.weight.data = weight_ext
+        
+        if bias and (bias_ext is not None):
+            assert bias_ext.size()[0] == out_channels, \
+                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
+            self.bias.data = bias_ext
+
+        swcfg={
+            "btype" : torch.float,
+            "rtype" : torch.float,
+            "stype" : torch.float
+        }
+
+        # random_sequence from RNG
+        hwcfg_irng = {
+            "width" : self.hwcfg["widthi"] - self.hwcfg["signmag"], 
+            "dimr" : 1, 
+            "rng" : self.hwcfg["rngi"]
+        }
+        self.irng = RNG(hwcfg_irng, swcfg)()
+        hwcfg_wrng = {
+            "width" : self.hwcfg["widthw"] - self.hwcfg["signmag"], 
+            "dimr" : 1, 
+            "rng" : self.hwcfg["rngw"]
+        }
+        self.wrng = RNG(hwcfg_wrng, swcfg)()
+
+        if (self.itc) and (not self.wtc):
+            # cbsg controller is input
+            self.rngctler = self.irng
+            self.rngctlee = self.wrng
+        elif (not self.itc) and (self.wtc):
+            # cbsg controller is weight
+            self.rngctler = self.wrng
+            self.rngctlee = self.irng
+        elif (not self.itc) and (not self.wtc):
+            # when rate coding is applied to both input and weight, always control weight with input
+            # the hardware cost of doing this is similar to the opposite
+            self.rngctler = self.irng
+            self.rngctlee = self.wrng
+        
+        # generate the value map for mul using current rng
+        # dim 0 is input index
+        # the tensor input value is the actual value produced by the rngctler
+        self.mapctler = torch.nn.Parameter(torch.empty(self.cycle_max), requires_grad=False)
+        cycle_ctlerval = torch.empty(0)
+        torch.cat(self.cycle_max*[torch.arange(self.cycle_max, dtype=torch.float).unsqueeze(1)], 1, out=cycle_ctlerval)
+        cycle_ctlerbit = torch.empty(0)
+        torch.gt(cycle_ctlerval, self.rngctler.unsqueeze(0), out=cycle_ctlerbit)
+        self.mapctler.data = torch.sum(cycle_ctlerbit, 1).squeeze_().type(torch.long)
+
+        # dim 0 is input index, dim 1 is weight index
+        # the tensor value is the actual weight value produced by the rngctlee, under a specific input and weight
+        self.mapctlee = torch.nn.Parameter(torch.empty(self.cycle_max, self.cycle_max), requires_grad=False)
+        cycle_ctleebit = torch.empty(0)
+        torch.gt(cycle_ctlerval, self.rngctlee.unsqueeze(0), out=cycle_ctleebit)
+        for c in range(self.cycle_max):
+            self.mapctlee.data[c] = torch.sum(cycle_ctleebit[:, 0:self.mapctler.data[c]], 1).squeeze_()
+        
+        self.rshift_i = None
+        self.rshift_w = None
+        self.rshift_o = None
+    
+    @autocast()
+    def forward(self, input):
+        # See the autograd section for explanation of what happens here.
+        self.rshift_i, self.rshift_w, self.rshift_o = \
+            rshift_offset(input, self.weight, self.hwcfg["widthi"] - self.hwcfg["signmag"], self.hwcfg["widthw"] - self.hwcfg["signmag"], self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
+        
+        with torch.no_grad():
+            # all data are in NCHW
+            output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
+
+        input_im2col = torch.nn.functional.unfold(input, self.kernel_size, self.dilation, self.padding, self.stride)
+        input_transpose = input_im2col.transpose(1, 2)
+        input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
+
+        weight = self.weight.view(self.weight.size()[0], -1)
+        mm_out = HUBLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.cycle_act, self.mapctlee)
+        mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
+        mm_out_transpose = mm_out_reshape.transpose(1, 2)
+        output = torch.nn.functional.fold(mm_out_transpose, output_size, (1, 1))
+
+        if self.bias is None:
+            return output
+        else:
+            return output + self.bias.view([1, self.bias.size()[0], 1, 1])
+
+
+class FXPConv2d(torch.nn.Conv2d):
+    """
+    This module is the 2d conv layer, with binary input and binary output
+    """
+    def __init__(
+        self, 
+        in_channels, 
+        out_channels, 
+        kernel_size, 
+        stride=1, 
+        padding=0, 
+        dilation=1, 
+        groups=1, 
+        bias=True, 
+        padding_mode='zeros', 
+        weight_ext=None, 
+        bias_ext=None, 
+        hwcfg={
+            "widthi" : 8,
+            "quantilei" : 1,
+            "widthw" : 8,
+            "quantilew" : 1,
+            "rounding" : "round"
+        }):
+        super(FXPConv2d, self).__init__(in_channels, 
+                                            out_channels, 
+                                            kernel_size, 
+                                            stride, 
+                                            padding, 
+                                            dilation, 
+                                            groups, 
+                                            bias, 
+                                            padding_mode)
+
+        assert groups==1, "Supported group number is 1."
+        assert padding_mode=='zeros', "Supported padding_mode number is 'zeros'."
+        self.hwcfg = {}
+        self.hwcfg["widthi"] = hwcfg["widthi"]
+        self.hwcfg["quantilei"] = hwcfg["quantilei"]
+        self.hwcfg["widthw"] = hwcfg["widthw"]
+        self.hwcfg["quantilew"] = hwcfg["quantilew"]
+        self.hwcfg["rounding"] = hwcfg["rounding"].lower()
+        
+        # weight and bias
+        if weight_ext is not None:
+            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
+                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
+            self.weight.data = weight_ext
+        
+        if bias and (bias_ext is not None):
+            assert bias_ext.size()[0] == out_channels, \
+                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
+            self.bias.data = bias_ext
+        
+        # max abs value
+        self.max_abs_i = 2**self.hwcfg["widthi"]
+        self.max_abs_w = 2**self.hwcfg["widthw"]
+        
+        self.rshift_i = None
+        self.rshift_w = None
+        self.rshift_o = None
+    
+    @autocast()
+    def forward(self, input):
+        # See the autograd section for explanation of what happens here.
+        self.rshift_i, self.rshift_w, _ = \
+            rshift_offset(input, self.weight, self.hwcfg["widthi"] - 1, self.hwcfg["widthw"] - 1, self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
+        self.rshift_o = 0 - self.rshift_i - self.rshift_w
+
+        with torch.no_grad():
+            # all data are in NCHW
+            output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
+
+        # See the autograd section for explanation of what happens here.
+        input_im2col = torch.nn.functional.unfold(input, self.kernel_size, self.dilation, self.padding, self.stride)
+        input_transpose = input_im2col.transpose(1, 2)
+        input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
+
+        weight = self.weight.view(self.weight.size()[0], -1)
+        mm_out = FXPLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.max_abs_i, self.max_abs_w)
+        mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
+        mm_out_transpose = mm_out_reshape.transpose(1, 2)
+        output = torch.nn.functional.fold(mm_out_transpose, output_size, (1, 1))
+
+        if self.bias is None:
+            return output
+        else:
+            return output + self.bias.view([1, self.bias.size()[0], 1, 1])
+
+
+
+class TLUTConv2d(torch.nn.Conv2d):
+    """
+    This module is the 2d conv layer using temporal look-up table (T-LUT). 
+    This module always applies sign-magnitude format for temporal bitstreams.
+    The hardware configuration specifies
+    1) the variable to produce temporal coded bitstreams
+    2) the format with in bit for input and weight/bias, only used for temporal coded fxp data
+    3) the data with in bit for input and weight/bias, as well as for the temporal coded bitstreams
+    4) the quantile to quantize input and weight/bias, only used for temporal coded fxp datas
+    5) the cycle to early terminate the run
+    6) the rounding mode for both input and weight/bias, only used for temporal coded fxp datas
+    """
+    def __init__(
+        self, 
+        in_channels, 
+        out_channels, 
+        kernel_size, 
+        stride=1, 
+        padding=0, 
+        dilation=1, 
+        groups=1, 
+        bias=True, 
+        padding_mode='zeros', 
+        weight_ext=None, 
+        bias_ext=None, 
+        hwcfg={
+            "temporal" : "i",
+            "widtht" : 4,
+            "formati" : "fxp",
+            "widthi" : 8,
+            "quantilei" : 1,
+            "formatw" : "fxp",
+            "widthw" : 8,
+            "quantilew" : 1,
+            "cycle" : None,
+            "rounding" : "round",
+            "signmag" : True
+        }):
+        super(TLUTConv2d, self).__init__(in_channels, 
+                                            out_channels, 
+                                            kernel_size, 
+                                            stride, 
+                                            padding, 
+                                            dilation, 
+                                            groups, 
+                                            bias, 
+                                            padding_mode)
+
+        assert groups==1, "Supported group number is 1."
+        assert padding_mode=='zeros', "Supported padding_mode number is 'zeros'."
+        self.hwcfg = {}
+        self.hwcfg["temporal"] = hwcfg["temporal"].lower()
+        self.hwcfg["widtht"] = hwcfg["widtht"]
+        self.hwcfg["formati"] = hwcfg["formati"].lower()
+        self.hwcfg["widthi"] = hwcfg["widthi"]
+        self.hwcfg["quantilei"] = hwcfg["quantilei"]
+        self.hwcfg["formatw"] = hwcfg["formatw"].lower()
+        self.hwcfg["widthw"] = hwcfg["widthw"]
+        self.hwcfg["quantilew"] = hwcfg["quantilew"]
+        self.hwcfg["cycle"] = hwcfg["cycle"]
+        self.hwcfg["rounding"] = hwcfg["rounding"].lower()
+        self.hwcfg["signmag"] = hwcfg["signmag"]
+
+        assert self.hwcfg["temporal"] in ["i", "w", "input", "weight"], \
+            "Error: the hw config 'temporal' in " + str(self) + " class requires one of ['i', 'input', 'w', 'weight']."
+
+        assert self.hwcfg["formati"] in ["fxp", "bfloat16", "float16", "float32"], \
+            "Error: the hw config 'formati' in " + str(self) + " class requires one of ['fxp', 'bfloat16', 'float16', 'float32']."
+        
+        assert self.hwcfg["formatw"] in ["fxp", "bfloat16", "float16", "float32"], \
+            "Error: the hw config 'formatw' in " + str(self) + " class requires one of ['fxp', 'bfloat16', 'float16', 'float32']."
+
+        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
+            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
+        
+        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
+            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
+
+        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
+            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
+
+        assert self.hwcfg["signmag"] is True, \
+            "Error: the hw config 'signmag' of " + str(self) + " class requires to be True, i.e., always computing on the magnitude of the data."
+        
+        # weight and bias
+        if weight_ext is not None:
+            assert (weight_ext.size()[0], weight_ext.size()[1], weight_ext.size()[2], weight_ext.size()[3]) == (out_channels, in_channels, num2tuple(kernel_size)[0], num2tuple(kernel_size)[1]), \
+                "Error: the hw config 'out_channels, in_channels, kernel_size' in " + str(self) + " class unmatches the binary weight shape."
+            self.weight.data = weight_ext
+        
+        if bias and (bias_ext is not None):
+            assert bias_ext.size()[0] == out_channels, \
+                "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
+            self.bias.data = bias_ext
+        
+        if (self.hwcfg["formati"] in ["fxp"]) and (self.hwcfg["formatw"] in ["fxp"]):
+            self.mode = "fxpfxp"
+        elif (self.hwcfg["formati"] not in ["fxp"]) and (self.hwcfg["formatw"] not in ["fxp"]):
+            self.mode = "fpfp"
+        else:
+            self.mode = "fxpfp"
+
+        # maximum possible run cycle
+        self.cycle_max = 2**self.hwcfg["widtht"]
+        # actual run cycle
+        if self.hwcfg["cycle"] is None:
+            self.cycle_act = self.cycle_max
+        else:
+            self.cycle_act = min(self.hwcfg["cycle"], self.cycle_max)
+        self.hwcfg["cycle"] = self.cycle_act
+
+        self.widthi = self.hwcfg["widthi"] - 1
+        self.widthw = self.hwcfg["widthw"] - 1
+
+        if self.hwcfg["temporal"] in ["i", "input"]:
+            if self.hwcfg["formati"] in ["fxp"]:
+                self.width = self.hwcfg["widthi"] - 1
+            elif self.hwcfg["formati"] in ["bfloat16"]:
+                self.width = 8
+            elif self.hwcfg["formati"] in ["float16"]:
+                self.width = 11
+            elif self.hwcfg["formati"] in ["float32"]:
+                self.width = 24
+        elif self.hwcfg["temporal"] in ["w", "weight"]:
+            if self.hwcfg["formatw"] in ["fxp"]:
+                self.width = self.hwcfg["widthw"] - 1
+            elif self.hwcfg["formatw"] in ["bfloat16"]:
+                self.width = 8
+            elif self.hwcfg["formatw"] in ["float16"]:
+                self.width = 11
+            elif self.hwcfg["formatw"] in ["float32"]:
+                self.width = 24
+        
+        self.degree = int(math.ceil(self.width / self.hwcfg["widtht"]))
+        self.delta = int(self.degree * self.hwcfg["widtht"] - self.width)
+    
+    def forward(self, input):
+        with torch.no_grad():
+            # all data are in NCHW
+            output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)
+
+        # See the autograd section for explanation of what happens here.
+        input_im2col = torch.nn.functional.unfold(input.type(torch.float), self.kernel_size, self.dilation, self.padding, self.stride).type(input.type())
+        input_transpose = input_im2col.transpose(1, 2)
+        input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
+
+        weight = self.weight.view(self.weight.size()[0], -1)
+        # See the autograd section for explanation of what happens here.
+        if self.mode == "fxpfxp":
+            mm_out = TLUTLinearFXPFXPFunction.apply(input_reshape, weight, None, 
+                self.hwcfg["temporal"], self.widthi, self.widthw, self.hwcfg["widtht"], self.degree, self.delta, self.cycle_act, -self.cycle_act,
+                self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
+        elif self.mode == "fxpfp":
+            mm_out = TLUTLinearFXPFPFunction.apply(input_reshape, weight, None, 
+                self.hwcfg["temporal"], self.width, self.hwcfg["widtht"], self.degree, self.delta, self.cycle_act, -self.cycle_act,
+                self.hwcfg["rounding"], self.hwcfg["quantilei"], self.hwcfg["quantilew"])
+        elif self.mode == "fpfp":
+            mm_out = TLUTLinearFPFPFunction.apply(input_reshape, weight, None, 
+                self.hwcfg["temporal"], self.width, self.hwcfg["widtht"], self.degree, self.delta, self.cycle_act, -self.cycle_act)
+        mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
+        mm_out_transpose = mm_out_reshape.transpose(1, 2)
+        output = torch.nn.functional.fold(mm_out_transpose.type(torch.float), output_size, (1, 1)).type(input.type())
+
+        if self.bias is None:
+            return output
+        else:
+            return output + self.bias.view([1, self.bias.size()[0], 1, 1])
+
-- 
2.43.0


From 55801f26026c59e62ff8a2dda582fa4e57cbe9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 06/20] fix: convtransp2d_get_padding splits the total padding
 into halves only once

---
 kernel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 128534b..0c0a704 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -99,8 +99,8 @@ def convtransp2d_get_padding(h_w_in, h_w_out, kernel_size=1, stride=1, dilation=
     h_w_in, h_w_out, kernel_size, stride, dilation, out_pad = num2tuple(h_w_in), num2tuple(h_w_out), \
         num2tuple(kernel_size), num2tuple(stride), num2tuple(dilation), num2tuple(out_pad)
         
-    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0]) / 2
-    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1]) / 2
+    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0])
+    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1])
     
     return (math.floor(p_h/2), math.ceil(p_h/2)), (math.floor(p_w/2), math.ceil(p_w/2))
 
-- 
2.43.0


From 6427afa96872df94805e60b4954a07ae9b104967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 07/20] fix: LFSR generator never starts from the invalid
 all-zero state

---
 stream/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stream/gen.py b/stream/gen.py
index 0489066..fc35af8 100644
--- a/stream/gen.py
+++ b/stream/gen.py
@@ -6,7 +6,9 @@ from math import log2, ceil, floor
 def get_lfsr_seq(width=8):
     polylist = LFSR().get_fpolyList(m=width)
     poly = polylist[np.random.randint(0, len(polylist), 1)[0]]
-    L = LFSR(fpoly=poly,initstate ='random')
+    # the all-zero state is not a valid LFSR state, so draw a non-zero one
+    seed = np.random.randint(1, 2**width)
+    L = LFSR(fpoly=poly, initstate=[(seed >> i) & 1 for i in range(width)])
     lfsr_seq = []
     for i in range(2**width):
         value = 0
-- 
2.43.0


From 30d6b5069bedf05a75c2459f8eb92a8ba4ca6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 08/20] fix: RawScale returns zeros instead of NaN when the
 remaining data are all zero

---
 stream/gen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream/gen.py b/stream/gen.py
index fc35af8..07f8c19 100644
--- a/stream/gen.py
+++ b/stream/gen.py
@@ -102,6 +102,9 @@ class RawScale(torch.nn.Module):
         lower_bound = torch.quantile(raw, self.quantile_lower)
         upper_bound = torch.quantile(raw, self.quantile_upper)
         scale = torch.max(lower_bound.abs(), upper_bound.abs())
+        # all remaining data are zero, nothing to scale
+        if scale == 0:
+            scale = torch.ones_like(scale)
         output = raw.clamp(lower_bound, upper_bound).div(scale)
         return output
 
-- 
2.43.0


From 58df0b2f65a8f22e3bcf81d318b67d4e24acbef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 09/20] fix: NN_SC_Weight_Clipper skips the absent bias of a
 bias=False layer

---
 kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 0c0a704..b5d5954 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -27,7 +27,7 @@ class NN_SC_Weight_Clipper(object):
             w = module.weight.data
             self.clipping(w)
         
-        if hasattr(module, 'bias'):
+        if hasattr(module, 'bias') and module.bias is not None:
             w = module.bias.data
             self.clipping(w)
         
-- 
2.43.0


From f381aadfefc152d4eb3c7be0875b293bc3869483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 10/20] fix: HUBLinear and HUBConv2d run all cycles when the hw
 config 'cycle' is None

---
 kernel/conv.py   | 8 ++++++--
 kernel/linear.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index d3042d1..278ddc3 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -398,7 +398,7 @@ class HUBConv2d(torch.nn.Conv2d):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
@@ -421,7 +421,11 @@ class HUBConv2d(torch.nn.Conv2d):
         # maximum possible run cycle
         self.cycle_max = 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"])
         # actual run cycle
-        self.cycle_act = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        if self.hwcfg["cycle"] is None:
+            self.cycle_act = self.cycle_max
+        else:
+            self.cycle_act = min(self.hwcfg["cycle"], self.cycle_max)
+        self.hwcfg["cycle"] = self.cycle_act
 
         assert groups == 1, \
             "Error: the 'groups' in " + str(self) + " class requires to be 1."
diff --git a/kernel/linear.py b/kernel/linear.py
index 6663b63..b8a17f5 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -313,7 +313,7 @@ class HUBLinear(torch.nn.Linear):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
-- 
2.43.0


From 5e2abc47ee67ca30e14afb2b97faf07c0393def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 11/20] fix: progerror_report reads the source values that
 ProgError actually stores

---
 kernel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index b5d5954..8dbea49 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -129,8 +129,8 @@ def tensor_unary_outlier(tensor, name="tensor"):
 
 def progerror_report(progerror, name="progerror", report_value=False, report_relative=False):
     if report_value:
-        min = progerror.in_value.min().item()
-        max = progerror.in_value.max().item()
+        min = progerror.source.min().item()
+        max = progerror.source.max().item()
         std, mean = torch.std_mean(progerror()[0])
         print("{:30s}".format(name) + \
                 ", Binary   Value range," + "{:12f}".format(min) + ", {:12f}".format(max) + \
-- 
2.43.0


From e4bf9c9718377e01c4a0d376567bc5746458b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 12/20] fix: all-zero input or weight gives the bias, not NaN,
 in FXP and TLUT layers

---
 kernel/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernel/utils.py b/kernel/utils.py
index 8dbea49..05ec725 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -216,6 +216,8 @@ def rshift_offset(input, weight, widthi, widthw, rounding="round", quantilei=1,
         lower_bound_i = torch.quantile(input, quantile_i_lower)
         upper_bound_i = torch.quantile(input, quantile_i_upper)
         scale_i = torch.max(lower_bound_i.abs(), upper_bound_i.abs())
+        # all-zero data have no magnitude to normalize, use 1 so as not to get NaN from log2(0)
+        scale_i = torch.where(scale_i == 0, torch.ones_like(scale_i), scale_i)
         imax_int = scale_i.log2()
 
         quantile_w_upper = 0.5 - quantilew / 2
@@ -223,6 +225,7 @@ def rshift_offset(input, weight, widthi, widthw, rounding="round", quantilei=1,
         lower_bound_w = torch.quantile(weight, quantile_w_lower)
         upper_bound_w = torch.quantile(weight, quantile_w_upper)
         scale_w = torch.max(lower_bound_w.abs(), upper_bound_w.abs())
+        scale_w = torch.where(scale_w == 0, torch.ones_like(scale_w), scale_w)
         wmax_int = scale_w.log2()
 
         if rounding == "round":
-- 
2.43.0


From 78e15c7cb0566cf8f638fbeaa3bfc94d4092cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 13/20] fix: NN_SC_Weight_Clipper clips constant parameters
 instead of normalizing them to NaN

---
 kernel/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 05ec725..a32ac1a 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -34,26 +34,31 @@ class NN_SC_Weight_Clipper(object):
         self.frequency = self.frequency + 1
             
     def clipping(self, w):
+        method = self.method
+        if method == "norm" and torch.max(w) == torch.min(w):
+            # constant data have no range to be normalized to, clip them so as not to get NaN
+            method = "clip"
+
         if self.mode == "unipolar":
-            if self.method == "norm":
+            if method == "norm":
                 w.sub_(torch.min(w)).div_(torch.max(w) - torch.min(w)) \
                 .mul_(self.scale).round_().clamp_(0.0,self.scale).div_(self.scale)
-            elif self.method == "clip":
+            elif method == "clip":
                 w.clamp_(0.0,1.0) \
                 .mul_(self.scale).round_().clamp_(0.0,self.scale).div_(self.scale)
             else:
                 raise TypeError("unknown method type '{}' in SC_Weight, should be 'clip' or 'norm'"
-                                .format(self.method))
+                                .format(method))
         elif self.mode == "bipolar":
-            if self.method == "norm":
+            if method == "norm":
                 w.sub_(torch.min(w)).div_(torch.max(w) - torch.min(w)).mul_(2).sub_(1) \
                 .mul_(self.scale/2).round_().clamp_(-self.scale/2,self.scale/2).div_(self.scale/2)
-            elif self.method == "clip":
+            elif method == "clip":
                 w.clamp_(-1.0,1.0) \
                 .mul_(self.scale/2).round_().clamp_(-self.scale/2,self.scale/2).div_(self.scale/2)
             else:
                 raise TypeError("unknown method type '{}' in SC_Weight, should be 'clip' or 'norm'"
-                                .format(self.method))
+                                .format(method))
         else:
             raise TypeError("unknown mode type '{}' in SC_Weight, should be 'unipolar' or 'bipolar'"
                             .format(self.mode))
-- 
2.43.0


From 199f7a6053d6a688c76bc691db4898de71a53a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 14/20] fix: progerror_report prints the std and mean of the
 source in its Binary row

---
 kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index a32ac1a..b2cd243 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -136,7 +136,7 @@ def progerror_report(progerror, name="progerror", report_value=False, report_rel
     if report_value:
         min = progerror.source.min().item()
         max = progerror.source.max().item()
-        std, mean = torch.std_mean(progerror()[0])
+        std, mean = torch.std_mean(progerror.source)
         print("{:30s}".format(name) + \
                 ", Binary   Value range," + "{:12f}".format(min) + ", {:12f}".format(max) + \
                 ", std," + "{:12f}".format(std) + \
-- 
2.43.0


From 0cb6b6bd688a8ea24843df2221669aa655f1f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 15/20] fix: NN_SC_Weight_Clipper passes modules whose weight
 is None

---
 kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index b2cd243..6e8e830 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -23,7 +23,7 @@ class NN_SC_Weight_Clipper(object):
         else:
             self.method = "norm"
                 
-        if hasattr(module, 'weight'):
+        if hasattr(module, 'weight') and module.weight is not None:
             w = module.weight.data
             self.clipping(w)
         
-- 
2.43.0


From 04a541f4175075a49fd1fd832b0173d3ccf8d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 16/20] fix: bit-inserting square roots did not parse (missing
 commas, missing include) and sized their shift register by DEP

---
 hw/kernel/sqrt/BISQRT_O_B.sv    | 10 +++++-----
 hw/kernel/sqrt/BISQRT_O_U.sv    | 10 +++++-----
 hw/kernel/sqrt/BISQRT_S_IS_B.sv |  1 +
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/hw/kernel/sqrt/BISQRT_O_B.sv b/hw/kernel/sqrt/BISQRT_O_B.sv
index 66e9e80..c2070df 100644
--- a/hw/kernel/sqrt/BISQRT_O_B.sv
+++ b/hw/kernel/sqrt/BISQRT_O_B.sv
@@ -1,8 +1,8 @@
 `include "../../stream/shuffle/Bi2Uni.sv"
 
 module BISQRT_O_B #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -27,12 +27,12 @@ module BISQRT_O_B #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
diff --git a/hw/kernel/sqrt/BISQRT_O_U.sv b/hw/kernel/sqrt/BISQRT_O_U.sv
index d50c467..84824af 100644
--- a/hw/kernel/sqrt/BISQRT_O_U.sv
+++ b/hw/kernel/sqrt/BISQRT_O_U.sv
@@ -1,6 +1,6 @@
 module BISQRT_O_U #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -24,12 +24,12 @@ module BISQRT_O_U #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
diff --git a/hw/kernel/sqrt/BISQRT_S_IS_B.sv b/hw/kernel/sqrt/BISQRT_S_IS_B.sv
index 155c2fb..7bc68f9 100644
--- a/hw/kernel/sqrt/BISQRT_S_IS_B.sv
+++ b/hw/kernel/sqrt/BISQRT_S_IS_B.sv
@@ -1,4 +1,5 @@
 `include "../div/CORDIV_kernel.sv"
+`include "../../stream/shuffle/Bi2Uni.sv"
 
 module BISQRT_S_IS_B #(
     parameter DEP=1,
-- 
2.43.0


From a496968f9d9ac506c74a3ae5dada5c1e968da753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 17/20] fix: SkewedSyncInt never took out what it handed out,
 and clipped to a malformed constant

---
 hw/stream/shuffle_int/SkewedSyncInt.sv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hw/stream/shuffle_int/SkewedSyncInt.sv b/hw/stream/shuffle_int/SkewedSyncInt.sv
index d8fe6c6..94cfb73 100644
--- a/hw/stream/shuffle_int/SkewedSyncInt.sv
+++ b/hw/stream/shuffle_int/SkewedSyncInt.sv
@@ -28,11 +28,11 @@ module SkewedSyncInt # (
 
     assign sum = cnt + in0;
     assign sum_overflow = sum[DEP];
-    assign sum_clip = sum_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_clip = sum_overflow ? {DEP{1'b1}} : sum[DEP-1:0];
 
     assign sum_res = sum - out0;
     assign sum_res_overflow = sum_res[DEP];
-    assign sum_res_clip = sum_res_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_res_clip = sum_res_overflow ? {DEP{1'b1}} : sum_res[DEP-1:0];
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_cnt
         if(~rst_n) begin
-- 
2.43.0


From 183dedf7c7ef2aeaf2aaf2c66cfd4bed4f4956e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 18/20] fix: old sqrt and relu counters only decremented at
 zero (and wrapped); relu counter one bit too wide

---
 hw/kernel/old/relu/relu.sv | 6 +++---
 hw/kernel/old/sqrt/sqrt.sv | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hw/kernel/old/relu/relu.sv b/hw/kernel/old/relu/relu.sv
index dd011fb..0f3cf66 100644
--- a/hw/kernel/old/relu/relu.sv
+++ b/hw/kernel/old/relu/relu.sv
@@ -7,7 +7,7 @@ module relu (
     parameter DEPTH = 4;
 
     logic overHalf;
-    logic [DEPTH:0]cnt;
+    logic [DEPTH-1:0]cnt;
     logic inc;
     logic dec;
 
@@ -16,11 +16,11 @@ module relu (
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_cnt
         if(~rst_n) begin
-            cnt <= {1,{(DEPTH-1){1'b0}}};
+            cnt <= {1'b1,{(DEPTH-1){1'b0}}};
         end else begin
             if(inc & ~dec & ~&cnt) begin
                 cnt <= cnt + 1;
-            end else if(~inc & dec & ~|cnt) begin
+            end else if(~inc & dec & |cnt) begin
                 cnt <= cnt - 1;
             end else begin
                 cnt <= cnt;
diff --git a/hw/kernel/old/sqrt/sqrt.sv b/hw/kernel/old/sqrt/sqrt.sv
index d69867b..f533f0a 100644
--- a/hw/kernel/old/sqrt/sqrt.sv
+++ b/hw/kernel/old/sqrt/sqrt.sv
@@ -17,7 +17,7 @@ module sqrt (
         end else begin
             if(inc & ~dec & ~&cnt) begin
                 cnt <= cnt + 1;
-            end else if(~inc & dec & ~|cnt) begin
+            end else if(~inc & dec & |cnt) begin
                 cnt <= cnt - 1;
             end else begin
                 cnt <= cnt;
-- 
2.43.0


From 01a7322960d334130046297bd6c22372004a7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 19/20] fix: uNSADD8 subtracted the offset of 16 inputs

---
 hw/kernel/old/uNSADD/uNSADD8.sv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hw/kernel/old/uNSADD/uNSADD8.sv b/hw/kernel/old/uNSADD/uNSADD8.sv
index 9ba4cab..d7721af 100644
--- a/hw/kernel/old/uNSADD/uNSADD8.sv
+++ b/hw/kernel/old/uNSADD/uNSADD8.sv
@@ -1,6 +1,6 @@
 `include "parallelCnt7.sv"
 // `define OFFSET 0
-`define OFFSET 15
+`define OFFSET 7
 
 module uNSADD8 (
     input logic clk,    // Clock
-- 
2.43.0


From 61ebcae3f178e3684ee7264dce471408b4e7ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:36 +0000
Subject: [PATCH 20/20] fix: convolution layers accept weights of any memory
 layout, such as channels_last

---
 kernel/conv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index 278ddc3..3f40509 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -199,16 +199,16 @@ class FSUConv2dPC(torch.nn.Conv2d):
             self.brng = RNG(hwcfg_brng, swcfg)()
 
         # define the kernel linear for input bit 1
-        self.wbsg_i1 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
-        self.wrdx_i1 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
+        self.wbsg_i1 = BSGen(self.weight.reshape(1, self.weight.size()[0], -1), self.wrng, swcfg)
+        self.wrdx_i1 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).reshape(1, self.weight.size()[0], -1)
         if self.has_bias is True:
             self.bbsg = BSGen(self.bias, self.brng, swcfg)
             self.brdx = torch.nn.Parameter(torch.zeros_like(self.bias, dtype=torch.long), requires_grad=False)
         
         # if bipolar, define a kernel for input bit 0, note that there is no bias required for this kernel
         if (self.mode == "bipolar") and (self.wtc is False):
-            self.wbsg_i0 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
-            self.wrdx_i0 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
+            self.wbsg_i0 = BSGen(self.weight.reshape(1, self.weight.size()[0], -1), self.wrng, swcfg)
+            self.wrdx_i0 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).reshape(1, self.weight.size()[0], -1)
             
         # indicator of even/odd cycle
         self.even_cycle_flag = torch.nn.Parameter(torch.ones(1, dtype=torch.bool), requires_grad=False)
@@ -513,7 +513,7 @@ class HUBConv2d(torch.nn.Conv2d):
         input_transpose = input_im2col.transpose(1, 2)
         input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
 
-        weight = self.weight.view(self.weight.size()[0], -1)
+        weight = self.weight.reshape(self.weight.size()[0], -1)
         mm_out = HUBLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.cycle_act, self.mapctlee)
         mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
         mm_out_transpose = mm_out_reshape.transpose(1, 2)
@@ -603,7 +603,7 @@ class FXPConv2d(torch.nn.Conv2d):
         input_transpose = input_im2col.transpose(1, 2)
         input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
 
-        weight = self.weight.view(self.weight.size()[0], -1)
+        weight = self.weight.reshape(self.weight.size()[0], -1)
         mm_out = FXPLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.max_abs_i, self.max_abs_w)
         mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
         mm_out_transpose = mm_out_reshape.transpose(1, 2)
@@ -762,7 +762,7 @@ class TLUTConv2d(torch.nn.Conv2d):
         input_transpose = input_im2col.transpose(1, 2)
         input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
 
-        weight = self.weight.view(self.weight.size()[0], -1)
+        weight = self.weight.reshape(self.weight.size()[0], -1)
         # See the autograd section for explanation of what happens here.
         if self.mode == "fxpfxp":
             mm_out = TLUTLinearFXPFXPFunction.apply(input_reshape, weight, None, 
-- 
2.43.0

