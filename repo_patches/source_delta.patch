From 4a57a5d0974538d9b4d4c17275ef6e6e4ae6de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 01/10] fix: keep output bits in the evaluator until they are
 read

---
 src/evaluator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..56ad996 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -39,12 +39,17 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
         assert_eq!(inputs.len(), circuit.input_len());
+        // An output bit must be kept until it is read, even if all of the gates depending on it have been evaluated.
+        for i in 0..output_len {
+            let gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
+            *num_depend_map.entry(gate_id).or_insert(0) += 1;
+        }
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
                 Some(id) => {
                     evaled_map.insert(id, inputs[i]);
-                    num_depend_map.insert(id, circuit.get_depended_gates(&id)?.len());
+                    *num_depend_map.entry(id).or_insert(0) += circuit.get_depended_gates(&id)?.len();
                     i += 1;
                 }
                 None => {}
@@ -119,7 +124,7 @@ impl NXAOBoolEvaluator {
             NXAOBoolGate::Const(gate) => {
                 evaled_map.insert(*gate_id, gate.value);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
@@ -138,7 +143,7 @@ impl NXAOBoolEvaluator {
                 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
@@ -168,7 +173,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
@@ -198,7 +203,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
@@ -228,7 +233,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Module(gate) => {
@@ -260,7 +265,7 @@ impl NXAOBoolEvaluator {
                     let output_id = GateId(first_output_id.0 + (i as u64));
                     evaled_map.insert(output_id, output_bits[i]);
                     let num_depend = self.circuit.get_depended_gates(&output_id)?.len();
-                    num_depend_map.insert(output_id, num_depend);
+                    *num_depend_map.entry(output_id).or_insert(0) += num_depend;
                 }
                 Ok(())
             }
-- 
2.43.0


From 0b2d2cc7a883bd7248d35cf0062bf7a71c309f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 02/10] fix: do not underflow the wire count when a module
 repeats wires in its outputs

---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..b925651 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
+        self.num_wire += num_wire;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +609,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // The inputs and the outputs of the module share the wires of this circuit.
+        self.num_wire -= input_len + output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From a2981723a6c1e152a6988a471702f528fef8392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 03/10] fix: take the overflow of the subtraction into account
 in signed comparison

---
 src/circuits/arithmetic/int.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..8a28194 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -481,10 +481,16 @@ pub fn build_less_circuit<G: Gate, C: BoolCircuit<G>>(
         b_inputs.push(sub_ref.input()?);
     }
 
+    let a_sign = a_inputs[n_bits - 1];
+    let b_sign = b_inputs[n_bits - 1];
     let inputs = [a_inputs, b_inputs].concat();
     let sub = sub_ref.module(&suber_mid, &inputs)?;
-    let one = sub_ref.constant(true)?;
-    let is_less = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    let sub_sign = sub[n_bits - 1];
+    // The sign of a - b is inverted if the subtraction overflows.
+    let is_sign_diff = sub_ref.xor(&a_sign, &b_sign)?;
+    let is_flipped = sub_ref.xor(&a_sign, &sub_sign)?;
+    let is_overflow = sub_ref.and(&is_sign_diff, &is_flipped)?;
+    let is_less = sub_ref.xor(&sub_sign, &is_overflow)?;
     sub_ref.output(is_less)?;
     Ok(sub_mid)
 }
-- 
2.43.0


From 1eb7b230466616651ef5e2cc2df3f460d11ffd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 04/10] fix: reduce a sum equal to the modulus in the finite
 field addition

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..4c1ea57 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From 500556466d86ed9a1637dcccd0a8b6dad401dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 05/10] fix: accept any value of at most N bits in
 AllocInt::from_biguint

---
 src/circuits/arithmetic/int.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 8a28194..70c1789 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -44,8 +44,10 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
         let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
-        assert!(bits_le.len() <= N);
+        let mut bits_le = bytes2bits_le(&bytes_le[..]);
+        assert!(val.bits() <= N as u64);
+        // The last byte may have more bits than the remaining ones.
+        bits_le.truncate(N);
 
         let mut val_le = Vec::new();
         for i in 0..bits_le.len() {
-- 
2.43.0


From 950dbd58b6aa10ca0060a0b03c58186b387b5efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 06/10] fix: forget the wires of the previous circuit when a
 Bristol reader is reused

---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..065a9d3 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -55,6 +55,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-- 
2.43.0


From 77e2dd9d6146cafdc917216cf9dbc1a5df79fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 07/10] fix: read the operand of a Bristol EQ gate as a
 constant value

---
 src/bristol_converter.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 065a9d3..abdc544 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -115,17 +115,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_wire_ids = Vec::new();
             for _ in 0..input_len {
                 let wire_id = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_wire_ids.push(wire_id);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -137,6 +133,21 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
 
+            // The input of "EQ" is not a wire but a constant value.
+            if gate_type == "EQ" {
+                let output_gate = c_ref.constant(input_wire_ids[0] == 1)?;
+                self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                continue;
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_wire_ids {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(&wire_id)
+                    .ok_or(BristolError::UnknownWire(wire_id))?;
+                input_gates.push(gate_id);
+            }
+
             match gate_type {
                 "INV" => {
                     let output_gate = c_ref.not(input_gates[0])?;
@@ -154,7 +165,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From de10447da55f59cf02734accf26d430f7bf9956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 08/10] fix: return an error instead of panicking on malformed
 Bristol files

---
 src/bristol_converter.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index abdc544..63108fd 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -22,6 +22,12 @@ pub enum BristolError {
     InvalidOutputGate(WireId),
     #[error("The gate {0} is not supported.")]
     NotSupportedGate(String),
+    #[error("The numbers of the input and output wires are invalid for the gate {0}.")]
+    InvalidGateLen(String),
+    #[error("The value {0} is not a boolean constant.")]
+    InvalidConstValue(usize),
+    #[error("The number of the output wires is {0}, but the number of the wires is {1}.")]
+    InvalidOutputLen(usize, usize),
     #[error("The constant gate of id {0} cannot be written to a bristol file.")]
     ConstGateInWriter(GateId),
     #[error(transparent)]
@@ -96,7 +102,8 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            output_len_sum += output_bit;
+            output_len_sum = usize::checked_add(output_len_sum, output_bit)
+                .ok_or(BristolError::InvalidOutputLen(output_bit, num_wire))?;
         }
         //skip one row.
         let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
@@ -133,9 +140,23 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
 
+            let arity = match gate_type {
+                "INV" | "EQ" | "EQW" => 1,
+                "XOR" | "AND" | "OR" => 2,
+                _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
+            };
+            if input_len != arity || output_len != 1 {
+                return Err(BristolError::InvalidGateLen(gate_type.to_string()));
+            }
+
             // The input of "EQ" is not a wire but a constant value.
             if gate_type == "EQ" {
-                let output_gate = c_ref.constant(input_wire_ids[0] == 1)?;
+                let value = match input_wire_ids[0] {
+                    0 => false,
+                    1 => true,
+                    v => return Err(BristolError::InvalidConstValue(v)),
+                };
+                let output_gate = c_ref.constant(value)?;
                 self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 continue;
             }
@@ -173,9 +194,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             };
         }
 
-        for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
-            c_ref.output(gate_id)?;
+        let first_output_wire = num_wire
+            .checked_sub(output_len_sum)
+            .ok_or(BristolError::InvalidOutputLen(output_len_sum, num_wire))?;
+        for i in first_output_wire..num_wire {
+            let gate_id = self
+                .gate_of_wire
+                .get(&i)
+                .ok_or(BristolError::UnknownWire(i))?;
+            c_ref.output(*gate_id)?;
         }
         Ok(())
     }
-- 
2.43.0


From e1b51700bb0a1c20645c858aa9a1ec1606e5235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 09/10] fix: write valid Bristol files for dead gates,
 constants and any choice of outputs

---
 src/bristol_converter.rs | 64 +++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 63108fd..2788546 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -216,6 +216,8 @@ pub struct BristolNXAOWriter<W: Write> {
     pub num_wire: usize,
     pub last_const_wire: usize,
     pub writer: BufWriter<W>,
+    // The lines of the gates, which are written after the header.
+    gate_lines: String,
 }
 
 impl<W: Write> BristolNXAOWriter<W> {
@@ -225,6 +227,7 @@ impl<W: Write> BristolNXAOWriter<W> {
             num_wire: 0,
             last_const_wire: 0,
             writer,
+            gate_lines: String::new(),
         }
     }
 
@@ -236,22 +239,10 @@ impl<W: Write> BristolNXAOWriter<W> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
         let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
-        self.writer.write_all(first_line.as_bytes())?;
-
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
-        let second_line = format!(
-            "2 {} {}\n",
-            num_first_input,
-            num_all_input - num_first_input
-        );
-        self.writer.write_all(second_line.as_bytes())?;
-        let third_line = format!("1 {}\n", output_len);
-        self.writer.write_all(third_line.as_bytes())?;
-        self.writer.write_all(b"\n")?;
+        self.num_wire = 0;
+        self.gate_lines.clear();
 
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
@@ -276,13 +267,52 @@ impl<W: Write> BristolNXAOWriter<W> {
         self.last_const_wire = input_len;
         self.num_wire += num_const;
         self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        let mut output_wires = Vec::new();
+        for i in 0..output_len {
+            let output_gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            output_wires.push(wire_of_gate[&output_gate_id]);
+        }
+        self.write_output_wires(num_all_input, &output_wires);
+
+        let num_gate = self.num_wire - num_all_input;
+        let first_line = format!("{} {}\n", num_gate, self.num_wire);
+        self.writer.write_all(first_line.as_bytes())?;
+        let second_line = format!(
+            "2 {} {}\n",
+            num_first_input,
+            num_all_input - num_first_input
+        );
+        self.writer.write_all(second_line.as_bytes())?;
+        let third_line = format!("1 {}\n", output_len);
+        self.writer.write_all(third_line.as_bytes())?;
+        self.writer.write_all(b"\n")?;
+        self.writer.write_all(self.gate_lines.as_bytes())?;
+
+        // The constants of the modules on which no output depends are not assigned to the wires.
         let mut const_vals = Vec::new();
-        for wire in input_len..self.last_const_wire {
-            const_vals.push(const_of_wire[&wire]);
+        for wire in input_len..num_all_input {
+            const_vals.push(const_of_wire.get(&wire).copied().unwrap_or(false));
         }
         Ok(const_vals)
     }
 
+    // In the bristol format, the outputs are the last wires. If they are not yet, they are copied there.
+    fn write_output_wires(&mut self, num_all_input: usize, output_wires: &[usize]) {
+        let output_len = output_wires.len();
+        let mut is_last = self.num_wire >= num_all_input + output_len;
+        for i in 0..output_len {
+            is_last = is_last && output_wires[i] + output_len == self.num_wire + i;
+        }
+        if is_last {
+            return;
+        }
+        for wire in output_wires {
+            let line = format!("1 1 {} {} EQW\n", wire, self.num_wire);
+            self.gate_lines.push_str(&line);
+            self.num_wire += 1;
+        }
+    }
+
     fn write_all_gates(
         &mut self,
         wire_of_gate: &mut HashMap<GateId, usize>,
@@ -583,7 +613,7 @@ impl<W: Write> BristolNXAOWriter<W> {
                     write_str = write_str + &format!("{} ", wires[i]);
                 }
                 write_str = write_str + &format!("{} ", self.num_wire) + gate_str + "\n";
-                self.writer.write_all(write_str.as_bytes())?;
+                self.gate_lines.push_str(&write_str);
             }
             None => {}
         };
-- 
2.43.0


From 84a34cd865166b4ec8f39304739bbb572089ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:00 +0000
Subject: [PATCH 10/10] fix: count the constants a module got after it was
 called when writing a Bristol file

---
 src/bristol_converter.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2788546..2f3d466 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -238,7 +238,7 @@ impl<W: Write> BristolNXAOWriter<W> {
     ) -> Result<Vec<bool>, BristolError> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
-        let num_const = self.c_ref.num_const();
+        let num_const = Self::count_const(&self.c_ref)?.max(self.c_ref.num_const());
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
         self.num_wire = 0;
@@ -296,6 +296,23 @@ impl<W: Write> BristolNXAOWriter<W> {
         Ok(const_vals)
     }
 
+    // The number of constants after all calls are expanded. A module may have got constants after it was called.
+    fn count_const(
+        circuit: &BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>,
+    ) -> Result<usize, BristolError> {
+        let mut num_const = circuit.get_const_gates().len();
+        let num_gate_id = circuit.borrow().gate_index;
+        for i in 0..num_gate_id {
+            if let NXAOBoolGate::Module(gate) = circuit.get_gate(&GateId(i as u64))? {
+                if gate.out_index == 0 {
+                    let module_circuit = circuit.get_module(&gate.module_id)?;
+                    num_const += Self::count_const(&module_circuit)?;
+                }
+            }
+        }
+        Ok(num_const)
+    }
+
     // In the bristol format, the outputs are the last wires. If they are not yet, they are copied there.
     fn write_output_wires(&mut self, num_all_input: usize, output_wires: &[usize]) {
         let output_len = output_wires.len();
-- 
2.43.0

