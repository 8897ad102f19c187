From 944c7163e6690e490526c109828876ddcbb48e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 01/14] fix: little endian reads under reverse take the last
 bits from the preceding byte

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..cf54a5e 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -793,7 +793,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From 990ee9faef47b21a16e9d50932bb50947b4c5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 02/14] fix: sign extend signed fields that fit in a single
 byte

---
 bondrewd-derive/src/structs/from_bytes.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index cf54a5e..26dcd89 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -925,7 +925,7 @@ fn apply_le_math_to_field_access_quote(
             FieldDataType::Number(_, ref sign, ref ident) => {
                 let mut field_value = quote!{((input_byte_buffer[#starting_inject_byte] & #mask) >> #shift_left)};
                 if let NumberSignage::Signed = sign {
-                    field_value = add_sign_fix_quote_single_bit(field_value, field, &amount_of_bits, &starting_inject_byte);
+                    field_value = add_sign_fix_quote_single_bit(field_value, field, &amount_of_bits);
                     let mut value = quote!{
                         let mut #field_buffer_name = #field_value;
                     };
@@ -1300,7 +1300,7 @@ fn apply_be_math_to_field_access_quote(
             FieldDataType::Number(_, ref sign,ref ident) => {
                 let mut field_value = quote!{((input_byte_buffer[#starting_inject_byte] & #mask) >> #shift_left)};
                 if let NumberSignage::Signed = sign {
-                    field_value = add_sign_fix_quote_single_bit(field_value, field, &amount_of_bits, &starting_inject_byte);
+                    field_value = add_sign_fix_quote_single_bit(field_value, field, &amount_of_bits);
                     let mut value = quote!{
                         let mut #field_buffer_name = #field_value;
                     };
@@ -1620,21 +1620,15 @@ fn add_sign_fix_quote_single_bit(
     field_access: TokenStream,
     field: &FieldInfo,
     amount_of_bits: &usize,
-    byte_index: &usize,
 ) -> TokenStream {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
             if let NumberSignage::Signed = sign {
-                let bit_to_isolate = field.attrs.bit_range.start % 8;
-                let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
-                let sign_bit = quote! {
-                    (input_byte_buffer[#byte_index] & #sign_mask)
-                };
-                let add_me = quote! {
-                    if #sign_bit == #sign_mask {#neg_mask | #field_access} else {0u8 | #field_access}
+                // move the sign bit to the top of the byte and let the arithmetic shift extend it.
+                let unused_bits = 8 - amount_of_bits;
+                return quote! {
+                    ((((#field_access) << #unused_bits) as i8) >> #unused_bits)
                 };
-                return add_me;
             }
         }
     }
-- 
2.43.0


From ec48664f30ee2643650d206ec59e0bcef9f9bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 03/14] fix: take the sign of multi-byte signed fields from
 their own most significant bit

---
 bondrewd-derive/src/structs/from_bytes.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 26dcd89..2117578 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -729,7 +729,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -1344,7 +1344,7 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
+    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)?
     {
         a
     } else {
@@ -1527,23 +1527,28 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
             if let NumberSignage::Signed = sign {
-                let (bit_to_isolate, sign_index) = match field.attrs.endianness.as_ref() {
+                let (bit_to_isolate, mut sign_index) = match field.attrs.endianness.as_ref() {
                     Endianness::Big => (
                         field.attrs.bit_range.start % 8,
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        // the sign bit is the first bit of the last, most significant, byte.
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
                         // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
                     }
                     Endianness::None => return Ok(None),
                 };
+                if let Some(flip) = flip {
+                    sign_index = flip - sign_index;
+                }
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
-- 
2.43.0


From 6f1527c095ff5042e83a4fe8a7061ad4da42b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 04/14] fix: clear exactly the bits of a little endian field
 before writing it

---
 bondrewd-derive/src/structs/into_bytes.rs | 43 ++++++++++-------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..40788e8 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -551,6 +551,24 @@ fn get_field_quote(
         Endianness::None => apply_ne_math_to_field_access_quote(field, quote_field_name, flip),
     }
 }
+/// quote that sets exactly the bits of `bit_range` to 0 in the `output_byte_buffer`.
+fn get_clear_quote(
+    bit_range: &std::ops::Range<usize>,
+    flip: Option<usize>,
+) -> proc_macro2::TokenStream {
+    let mut clear_quote = quote! {};
+    for byte in bit_range.start / 8..=(bit_range.end - 1) / 8 {
+        let first_bit = bit_range.start.max(byte * 8) - byte * 8;
+        let end_bit = bit_range.end.min(byte * 8 + 8) - byte * 8;
+        let keep_mask = !(get_right_and_mask(8 - first_bit) & get_left_and_mask(end_bit));
+        let index = flip.map_or(byte, |flip| flip - byte);
+        clear_quote = quote! {
+            #clear_quote
+            output_byte_buffer[#index] &= #keep_mask;
+        };
+    }
+    clear_quote
+}
 // first token stream is actual setter, but second one is overwrite current bits to 0.
 fn apply_le_math_to_field_access_quote(
     field: &FieldInfo,
@@ -651,28 +669,19 @@ fn apply_le_math_to_field_access_quote(
         let mid_shift: u32 = 8 - available_bits_in_first_byte as u32;
         let next_bit_mask = get_left_and_mask(mid_shift as usize);
         let mut i = 0;
-        let mut clear_quote = quote! {};
+        let clear_quote = get_clear_quote(&field.attrs.bit_range, flip);
         while i != fields_last_bits_index {
             let start = if flip.is_none() {
                 starting_inject_byte + i
             } else {
                 starting_inject_byte - i
             };
-            let not_current_bit_mask = !current_bit_mask;
             if available_bits_in_first_byte == 0 && right_shift == 0 {
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #current_bit_mask;
                 };
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
             } else {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
                 if mid_shift != 0 {
                     full_quote = quote! {
                         #full_quote
@@ -724,10 +733,6 @@ fn apply_le_math_to_field_access_quote(
                 #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
             };
             if used_bits < amount_of_bits {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= 0;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #first_bit_mask;
@@ -738,11 +743,6 @@ fn apply_le_math_to_field_access_quote(
                 if amount_of_bits <= used_bits {
                     last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
                 }
-                let not_last_mask = !last_mask;
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_last_mask;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #last_mask;
@@ -760,11 +760,6 @@ fn apply_le_math_to_field_access_quote(
             if amount_of_bits <= used_bits {
                 last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
             }
-            let not_last_mask = !last_mask;
-            clear_quote = quote! {
-                #clear_quote
-                output_byte_buffer[#start] &= #not_last_mask;
-            };
             let mut finalize = quote! {#field_buffer_name[#i]};
             if left_shift != 0 && left_shift != 8 {
                 finalize = quote! {(#finalize.rotate_left(#left_shift))};
-- 
2.43.0


From 90cdf17d51590567b51110fb3a60d2a4c4141e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 05/14] fix: a nested structure reads and writes exactly the
 bits of its field

---
 bondrewd-derive/src/structs/from_bytes.rs | 14 ++++++++--
 bondrewd-derive/src/structs/into_bytes.rs | 31 +++++++++--------------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 2117578..531055e 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -990,6 +990,8 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Struct(ref size, _) => {
                 let buffer_ident = format_ident!("{}_buffer", field.ident().ident());
                 let mut quote_builder = quote!{let mut #buffer_ident: [u8;#size] = [0u8;#size];};
+                // only the first `amount_of_bits` of the inner structure belong to this field.
+                let used_size = (*size).min((amount_of_bits + 7) / 8);
                 match right_shift.cmp(&0) {
                     Ordering::Greater => {
                         // right shift (this means that the last bits are in the first byte)
@@ -998,7 +1000,7 @@ fn apply_ne_math_to_field_access_quote(
                         let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
                         let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                         let right_shift: u32 = right_shift as u32;
-                        for i in 0..*size {
+                        for i in 0..used_size {
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
                             let mut first = if current_bit_mask == u8::MAX {
                                 quote!{
@@ -1055,7 +1057,7 @@ fn apply_ne_math_to_field_access_quote(
                     Ordering::Equal => {
                         // no shift can be more faster.
                         let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
-                        for i in 0..*size {
+                        for i in 0..used_size {
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
                             if i == 0{
                                 quote_builder = quote!{
@@ -1071,6 +1073,14 @@ fn apply_ne_math_to_field_access_quote(
                         }
                     }
                 }
+                if amount_of_bits < used_size * 8 {
+                    let last_byte = used_size - 1;
+                    let last_byte_mask = get_left_and_mask(amount_of_bits - last_byte * 8);
+                    quote_builder = quote!{
+                        #quote_builder
+                        #buffer_ident[#last_byte] &= #last_byte_mask;
+                    };
+                }
                 // return the value
                 quote_builder = quote!{
                     #quote_builder
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 40788e8..595bb4b 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -897,10 +897,20 @@ fn apply_ne_math_to_field_access_quote(
             }
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
         };
-        let mut clear_quote = quote! {};
+        let clear_quote = get_clear_quote(&field.attrs.bit_range, flip);
         let mut full_quote = quote! {
             #field_byte_buffer;
         };
+        // only the first `amount_of_bits` of the inner structure belong to this field.
+        let size = size.min((amount_of_bits + 7) / 8);
+        if amount_of_bits < size * 8 {
+            let last_byte = size - 1;
+            let last_byte_mask = get_left_and_mask(amount_of_bits - last_byte * 8);
+            full_quote = quote! {
+                #full_quote
+                #field_buffer_name[#last_byte] &= #last_byte_mask;
+            };
+        }
         // fill in the rest of the bits
         match right_shift.cmp(&0) {
             Ordering::Greater => {
@@ -916,12 +926,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    let not_next_bit_mask = !next_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     full_quote = quote! {
                         #full_quote
                         #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
@@ -929,12 +933,6 @@ fn apply_ne_math_to_field_access_quote(
                     };
 
                     if available_bits_in_first_byte + (8 * i) < amount_of_bits {
-                        if not_next_bit_mask != u8::MAX {
-                            clear_quote = quote! {
-                                #clear_quote
-                                output_byte_buffer[#start #operator 1] &= #not_next_bit_mask;//test
-                            };
-                        }
                         if next_bit_mask != 0 {
                             full_quote = quote! {
                                 #full_quote
@@ -979,11 +977,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     if i == 0 {
                         if current_bit_mask == u8::MAX {
                             full_quote = quote! {
@@ -1061,7 +1054,7 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Struct(_, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= (#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From 5ac2ce49038e96d154b3b38d6a3f5814546aadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 06/14] fix: slice functions of reversed structures require
 every byte the field uses

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 531055e..5fc4ec7 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -517,7 +517,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 595bb4b..56d25d6 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -374,7 +374,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From 66558073ad2ffc46fb3dc01f346bac3ac783b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 07/14] fix: from_vec and from_slice give reserve fields their
 default value like from_bytes

---
 bondrewd-derive/src/structs/from_bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 5fc4ec7..961e671 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,14 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
+            let vec_call = if field.attrs.reserve.read_field() {
+                quote! { #field_extractor }
+            } else {
+                quote! { Default::default() }
+            };
             from_vec_quote = quote! {
                 #from_vec_quote
-                let #field_name = #field_extractor;
+                let #field_name = #vec_call;
             };
         }
     }
-- 
2.43.0


From d6a0acad906c0017fe884c90b8e937ff11a84641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 08/14] fix: reversed enums keep their id in the first byte
 read, not on top of a variant field

---
 bondrewd-derive/src/structs/from_bytes.rs | 4 +---
 bondrewd-derive/src/structs/into_bytes.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 961e671..0a8f9e8 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -218,12 +218,10 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let field_extractor = get_field_quote(
                     &field,
                     if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 56d25d6..e319876 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -144,12 +144,10 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
                     if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
-- 
2.43.0


From 67059c0c7364782384d533d5d2013c0b7f5da901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 09/14] fix: a named catch variant of a BitfieldEnum stores the
 number

The generated from_primitive built it with `field = input`, which is no
struct expression, so every enum with a named catch variant failed to
compile.
---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From 8442291f296733e747a2f123058e5f48e41b5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 10/14] fix: a marked catch-all of a BitfieldEnum takes the
 lowest free number in turn

The marked variant took its position as its number even when literals
shifted the automatic numbering, so the documented rule (the lowest number
available) did not hold, and a literal equal to that position was lost and
the enum rejected.
---
 bondrewd-derive/src/enums/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..b0b369a 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -409,9 +409,9 @@ impl EnumInfo {
                                     return Err(syn::Error::new(var.ident.span(), "Literal Values conflict"));
                                 }
                             }else{
-                                literal_variants.insert(i, EnumVariant{
+                                unknown_variants.push_back(EnumVariantBuilder{
                                     name: var.ident.clone(),
-                                    value: EnumVariantType::Skip(Literal::usize_unsuffixed(i)),
+                                    value: EnumVariantBuilderType::Skip,
                                 });
                             }
                         } else if let Some((_, ref discriminant)) = var.discriminant {
-- 
2.43.0


From 889693efa9fa8a6e020eff1af7d4a3ba64160810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 11/14] fix: variant ids of 17 to 24, 33 to 56 and 65 to 120
 bits compile

The id field was declared with as many bytes as its bits need, while its
type is the next larger integer, so the generated code mixed array sizes.
---
 bondrewd-derive/src/structs/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..7ca626b 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1096,7 +1096,7 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                ((self.attrs.id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
@@ -1247,7 +1247,7 @@ impl ObjectInfo {
                     };
                     (
                         FieldDataType::Number(
-                            (id_bits as f64 / 8.0f64).ceil() as usize,
+                            ((id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                             NumberSignage::Unsigned,
                             get_id_type(id_bits, name.span())?,
                         ),
-- 
2.43.0


From 34ce9a591ce5f0926a223d92daa2cdf5f97e089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 12/14] fix: fill_bytes pads from the end of all fields, not of
 the last declared one

---
 bondrewd-derive/src/structs/common.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7ca626b..c781d96 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1920,11 +1920,8 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
+            // the last field may be a redundant view or sit anywhere in an explicit layout.
+            let first_bit = bit_size;
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
-- 
2.43.0


From b4fc941cde4d4fda8e90426bc8bd8c422b9ed74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 13/14] fix: generate the comparison of an enum with an id
 whenever part_eq_enums is on

---
 bondrewd-derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 25be53f..6730de6 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1920,6 +1920,22 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                 #getter_setters_quotes
                 #hex_fns_quote
             };
+            #[cfg(feature = "part_eq_enums")]
+            let id_ident = match enum_info.id_ident() {
+                Ok(ii) => ii,
+                Err(err) => {
+                    return err.to_compile_error().into();
+                }
+            };
+            #[cfg(feature = "part_eq_enums")]
+            let to_bytes_quote = quote! {
+                #to_bytes_quote
+                impl PartialEq<#id_ident> for #struct_name {
+                    fn eq(&self, other: &#id_ident) -> bool {
+                        self.id() == *other
+                    }
+                }
+            };
             if dyn_fns {
                 let from_vec_quote = fields_from_bytes.from_slice_field_fns;
                 let vis = &enum_info.vis;
@@ -1964,22 +1980,6 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                         #from_vec_quote
                     }
                 };
-                #[cfg(feature = "part_eq_enums")]
-                let id_ident = match enum_info.id_ident() {
-                    Ok(ii) => ii,
-                    Err(err) => {
-                        return err.to_compile_error().into();
-                    }
-                };
-                #[cfg(feature = "part_eq_enums")]
-                let to_bytes_quote = quote! {
-                    #to_bytes_quote
-                    impl PartialEq<#id_ident> for #struct_name {
-                        fn eq(&self, other: &#id_ident) -> bool {
-                            self.id() == *other
-                        }
-                    }
-                };
                 TokenStream::from(to_bytes_quote)
             } else {
                 TokenStream::from(to_bytes_quote)
-- 
2.43.0


From 95142593c51cb755a857c46741a9a08b04b0e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 14/14] fix: keep the primitive type of a BitfieldEnum that
 marks an invalid variant

---
 bondrewd-derive/src/enums/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index b0b369a..db17e5b 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -232,7 +232,10 @@ impl EnumInfo {
         for attr in attrs {
             match Self::parse_meta(attr.parse_meta()?, &mut temp_invalid, &mut temp, var)? {
                 ParseMetaResult::FoundInvalid => {
-                    std::mem::swap(&mut temp, primitive_type);
+                    // the attribute of the variant only decides the type where the enum has not.
+                    if temp.is_some() {
+                        std::mem::swap(&mut temp, primitive_type);
+                    }
                     std::mem::swap(&mut temp_invalid, invalid_found);
                     return Ok(true);
                 }
-- 
2.43.0

