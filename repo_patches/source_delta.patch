From ca37150beff0fd1f90ac002dcd0a5ca8ddcd8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 01/29] fix: sign-extend signed fields that fit in one byte

The sign mask was derived from the position of the field in the byte instead of
its length, and the resulting byte was zero-extended into wider integer types.
---
 bondrewd-derive/src/structs/from_bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..6eabb8c 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -932,7 +932,7 @@ fn apply_le_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1307,7 +1307,7 @@ fn apply_be_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1627,7 +1627,7 @@ fn add_sign_fix_quote_single_bit(
             if let NumberSignage::Signed = sign {
                 let bit_to_isolate = field.attrs.bit_range.start % 8;
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
+                let neg_mask = get_left_and_mask(8 - amount_of_bits);
                 let sign_bit = quote! {
                     (input_byte_buffer[#byte_index] & #sign_mask)
                 };
-- 
2.43.0


From 8b37ecaa9be178c7b91e61029abe8f11173468c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 02/29] fix: read the sign of reversed and whole-byte little
 endian fields from the right byte

---
 bondrewd-derive/src/structs/from_bytes.rs | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 6eabb8c..f395740 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -729,7 +729,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -1344,12 +1344,12 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
-    {
-        a
-    } else {
-        quote! {[0u8;#size]}
-    };
+    let new_array_quote =
+        if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
+            a
+        } else {
+            quote! {[0u8;#size]}
+        };
     let mut full_quote = if first_bit_mask == u8::MAX {
         quote! {
             let mut #field_buffer_name: [u8;#size] = #new_array_quote;
@@ -1527,23 +1527,27 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
             if let NumberSignage::Signed = sign {
-                let (bit_to_isolate, sign_index) = match field.attrs.endianness.as_ref() {
+                let (bit_to_isolate, mut sign_index) = match field.attrs.endianness.as_ref() {
                     Endianness::Big => (
                         field.attrs.bit_range.start % 8,
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        // the most significant byte comes last and its first bit is the sign.
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
-                        // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
                     }
                     Endianness::None => return Ok(None),
                 };
+                if let Some(flip) = flip {
+                    sign_index = flip - sign_index;
+                }
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
-- 
2.43.0


From f162aecd8db93a8ee143c40caf27a301ff3c7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 03/29] fix: read reversed little endian fields that end in the
 next byte

The last byte was looked up one byte after the current one even when the bytes
are walked backward, reading a neighbour or indexing out of bounds.
---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index f395740..3cf3bda 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -793,7 +793,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From f429451208bbbea52fffdaf92ddc8bb1ca9244ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 04/29] fix: write functions clear exactly the bits of their
 field

Writing a little endian field or a nested bitfield in place cleared the wrong
bits when the field crossed a byte boundary: old bits survived and were or-ed
into the new value, or bits of neighbouring fields were zeroed.
---
 bondrewd-derive/src/structs/into_bytes.rs | 90 ++++++++++++-----------
 1 file changed, 48 insertions(+), 42 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..00baa8a 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -551,6 +551,42 @@ fn get_field_quote(
         Endianness::None => apply_ne_math_to_field_access_quote(field, quote_field_name, flip),
     }
 }
+/// Clears exactly the bits a field which spans multiple bytes occupies.
+///
+/// # Arguments
+/// * `first_bit` - index (from the most significant bit) of the field's first bit in its first byte.
+/// * `amount_of_bits` - length of the field.
+/// * `starting_inject_byte` - index of the field's first byte in the buffer.
+/// * `flip` - Some when the bytes are walked backward.
+fn clear_field_bits_quote(
+    first_bit: usize,
+    amount_of_bits: usize,
+    starting_inject_byte: usize,
+    flip: Option<usize>,
+) -> proc_macro2::TokenStream {
+    let end = first_bit + amount_of_bits;
+    let mut clear_quote = quote! {};
+    for i in 0..(end + 7) / 8 {
+        let index = if flip.is_none() {
+            starting_inject_byte + i
+        } else {
+            starting_inject_byte - i
+        };
+        let mut mask = u8::MAX;
+        if i == 0 {
+            mask &= get_right_and_mask(8 - first_bit);
+        }
+        if end < (i + 1) * 8 {
+            mask &= get_left_and_mask(end - i * 8);
+        }
+        let not_mask = !mask;
+        clear_quote = quote! {
+            #clear_quote
+            output_byte_buffer[#index] &= #not_mask;
+        };
+    }
+    clear_quote
+}
 // first token stream is actual setter, but second one is overwrite current bits to 0.
 fn apply_le_math_to_field_access_quote(
     field: &FieldInfo,
@@ -651,28 +687,24 @@ fn apply_le_math_to_field_access_quote(
         let mid_shift: u32 = 8 - available_bits_in_first_byte as u32;
         let next_bit_mask = get_left_and_mask(mid_shift as usize);
         let mut i = 0;
-        let mut clear_quote = quote! {};
+        let clear_quote = clear_field_bits_quote(
+            field.attrs.bit_range.start % 8,
+            amount_of_bits,
+            starting_inject_byte,
+            flip,
+        );
         while i != fields_last_bits_index {
             let start = if flip.is_none() {
                 starting_inject_byte + i
             } else {
                 starting_inject_byte - i
             };
-            let not_current_bit_mask = !current_bit_mask;
             if available_bits_in_first_byte == 0 && right_shift == 0 {
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #current_bit_mask;
                 };
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
             } else {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
                 if mid_shift != 0 {
                     full_quote = quote! {
                         #full_quote
@@ -724,10 +756,6 @@ fn apply_le_math_to_field_access_quote(
                 #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
             };
             if used_bits < amount_of_bits {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= 0;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #first_bit_mask;
@@ -738,11 +766,6 @@ fn apply_le_math_to_field_access_quote(
                 if amount_of_bits <= used_bits {
                     last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
                 }
-                let not_last_mask = !last_mask;
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_last_mask;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #last_mask;
@@ -760,11 +783,6 @@ fn apply_le_math_to_field_access_quote(
             if amount_of_bits <= used_bits {
                 last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
             }
-            let not_last_mask = !last_mask;
-            clear_quote = quote! {
-                #clear_quote
-                output_byte_buffer[#start] &= #not_last_mask;
-            };
             let mut finalize = quote! {#field_buffer_name[#i]};
             if left_shift != 0 && left_shift != 8 {
                 finalize = quote! {(#finalize.rotate_left(#left_shift))};
@@ -902,7 +920,12 @@ fn apply_ne_math_to_field_access_quote(
             }
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
         };
-        let mut clear_quote = quote! {};
+        let clear_quote = clear_field_bits_quote(
+            field.attrs.bit_range.start % 8,
+            amount_of_bits,
+            starting_inject_byte,
+            flip,
+        );
         let mut full_quote = quote! {
             #field_byte_buffer;
         };
@@ -921,12 +944,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    let not_next_bit_mask = !next_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     full_quote = quote! {
                         #full_quote
                         #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
@@ -934,12 +951,6 @@ fn apply_ne_math_to_field_access_quote(
                     };
 
                     if available_bits_in_first_byte + (8 * i) < amount_of_bits {
-                        if not_next_bit_mask != u8::MAX {
-                            clear_quote = quote! {
-                                #clear_quote
-                                output_byte_buffer[#start #operator 1] &= #not_next_bit_mask;//test
-                            };
-                        }
                         if next_bit_mask != 0 {
                             full_quote = quote! {
                                 #full_quote
@@ -984,11 +995,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     if i == 0 {
                         if current_bit_mask == u8::MAX {
                             full_quote = quote! {
-- 
2.43.0


From cddf3f1adb01e57bc4ffa52f70ebe07a52bffbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 05/29] fix: slice functions of reversed bitfields require
 every byte they touch

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 3cf3bda..9077c3f 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -517,7 +517,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 00baa8a..79fe560 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -374,7 +374,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From 3855e90e01e9b296ea6d43ffada7fcc5e9e9c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 06/29] fix: reverse the variant id together with the payload
 of an enum

---
 bondrewd-derive/src/structs/from_bytes.rs | 4 +---
 bondrewd-derive/src/structs/into_bytes.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 9077c3f..b6a4f83 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -213,12 +213,10 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let field_extractor = get_field_quote(
                     &field,
                     if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 79fe560..313af74 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -144,12 +144,10 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
                     if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
-- 
2.43.0


From 63d7d3e92d153d3768d825d388b8bba9bd96f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 07/29] fix: primitive enums with a named catch value compile

---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From e9c5d678ffeed61757d91082d5e9ad5fac6b5a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 08/29] fix: from_slice and from_vec leave reserved fields at
 their default like from_bytes

---
 bondrewd-derive/src/structs/from_bytes.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index b6a4f83..8580c22 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,16 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
-            from_vec_quote = quote! {
-                #from_vec_quote
-                let #field_name = #field_extractor;
+            from_vec_quote = if field.attrs.reserve.read_field() {
+                quote! {
+                    #from_vec_quote
+                    let #field_name = #field_extractor;
+                }
+            } else {
+                quote! {
+                    #from_vec_quote
+                    let #field_name = Default::default();
+                }
             };
         }
     }
-- 
2.43.0


From 209e4b5ba75404390f0a65eb441be52ceba24cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 09/29] fix: count bits that explicit ranges and fill_bytes
 leave unused

---
 bondrewd-derive/src/structs/common.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..10dbc1d 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1041,6 +1041,10 @@ impl StructInfo {
         for field in self.fields.iter() {
             total += field.bit_size();
         }
+        // explicit bit ranges may leave bits unused before or between fields.
+        for field in self.fields.iter() {
+            total = total.max(field.attrs.bit_range.end);
+        }
 
         total
     }
@@ -1947,6 +1951,12 @@ impl ObjectInfo {
         }
 
         if attrs.lsb_zero {
+            // mirror over every bit, including fill bits and bits left unused by explicit bit ranges.
+            let bit_size = parsed_fields
+                .iter()
+                .map(|field| field.attrs.bit_range.end)
+                .max()
+                .unwrap_or(bit_size);
             for ref mut field in parsed_fields.iter_mut() {
                 field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
                     ..(bit_size - field.attrs.bit_range.start);
-- 
2.43.0


From a7ddccb8e88331c43de50075fdb6e06e131128a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 10/29] fix: data enums with ids wider than two bytes compile

---
 bondrewd-derive/src/structs/common.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 10dbc1d..ff40f29 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1100,7 +1100,7 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                get_id_type_bytes(self.attrs.id_bits),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
@@ -1167,6 +1167,11 @@ fn get_id_type(id_bits: usize, span: Span) -> syn::Result<TokenStream> {
     }
 }
 
+/// the amount of bytes in the type returned by [`get_id_type`].
+fn get_id_type_bytes(id_bits: usize) -> usize {
+    ((id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two()
+}
+
 impl ObjectInfo {
     pub fn name(&self) -> Ident {
         match self {
@@ -1251,7 +1256,7 @@ impl ObjectInfo {
                     };
                     (
                         FieldDataType::Number(
-                            (id_bits as f64 / 8.0f64).ceil() as usize,
+                            get_id_type_bytes(id_bits),
                             NumberSignage::Unsigned,
                             get_id_type(id_bits, name.span())?,
                         ),
-- 
2.43.0


From 69e0d0940fc69f779c9ee93a9669ce9ca5830b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:42 +0000
Subject: [PATCH 11/29] fix: data enums can be read from lsb0

---
 bondrewd-derive/src/structs/common.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index ff40f29..4748707 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1106,7 +1106,11 @@ impl EnumInfo {
             ),
             attrs: FieldAttrs {
                 endianness: Box::new(e),
-                bit_range: 0..self.attrs.id_bits,
+                bit_range: if self.attrs.attrs.lsb_zero {
+                    self.total_bits() - self.attrs.id_bits..self.total_bits()
+                } else {
+                    0..self.attrs.id_bits
+                },
                 reserve: ReserveFieldOption::NotReserve,
                 overlap: OverlapOptions::None,
                 capture_id: false,
@@ -1523,6 +1527,14 @@ impl ObjectInfo {
                         });
                     }
                 }
+                if attrs.lsb_zero {
+                    for v in variants.iter_mut() {
+                        for field in v.fields.iter_mut() {
+                            field.attrs.bit_range = (largest - field.attrs.bit_range.end)
+                                ..(largest - field.attrs.bit_range.start);
+                        }
+                    }
+                }
                 Ok(Self::Enum(EnumInfo {
                     name,
                     variants,
@@ -1955,7 +1967,8 @@ impl ObjectInfo {
             });
         }
 
-        if attrs.lsb_zero {
+        // the variants of an enum are mirrored once the size of the largest one is known.
+        if attrs.lsb_zero && !is_enum {
             // mirror over every bit, including fill bits and bits left unused by explicit bit ranges.
             let bit_size = parsed_fields
                 .iter()
-- 
2.43.0


From 4494fd2e638dab70d7307a9f02e073b347a3cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 12/29] fix: captured ids are read with the endianness of the
 enum

---
 bondrewd-derive/src/structs/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 4748707..c4bf34e 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1271,7 +1271,10 @@ impl ObjectInfo {
                     ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
                     ty: id_field_type,
                     attrs: FieldAttrs {
-                        endianness: Box::new(attrs.default_endianess.clone()),
+                        endianness: Box::new(match attrs.default_endianess {
+                            Endianness::None => Endianness::Little,
+                            ref e => e.clone(),
+                        }),
                         // this need to accommodate tailing ids, currently this locks the
                         // id field to the first field read from the starting point of reading.
                         // TODO make sure this gets corrected if the id size is unknown.
@@ -1889,6 +1892,8 @@ impl ObjectInfo {
                                     }else if bon_ty.to_string() != user_ty.to_string() {
                                         return Err(Error::new(field.span(), format!("capture_id field currently must be {bon_ty} in this instance, because bondrewd makes an assumption about the id type. changing this would be difficult")));
                                     }
+                                    // the id is stored with the endianness of the enum, not of the variant.
+                                    parsed_field.attrs.endianness = parsed_fields[0].attrs.endianness.clone();
                                     let old_id = parsed_fields.remove(0);
                                     if tuple {
                                         parsed_field.ident = old_id.ident;
-- 
2.43.0


From c9eade7d61f86317723de86bb07921a960ca8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 13/29] fix: arrays with an explicit bit range and no element
 length compile

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c4bf34e..8142364 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -362,7 +362,7 @@ impl FieldDataType {
                                                     "range end is less than range start",
                                                 ));
                                             }
-                                            if range.end - range.start % array_length != 0 {
+                                            if (range.end - range.start) % array_length != 0 {
                                                 return Err(
                                                     syn::Error::new(
                                                         span,
-- 
2.43.0


From 6b0fd53231ca8aa7a8beb8695dd438e91266a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 14/29] fix: little endian fields wider than their type are
 refused instead of panicking

---
 bondrewd-derive/src/structs/from_bytes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 8580c22..154aaff 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -733,6 +733,12 @@ fn apply_le_math_to_field_access_quote(
         //     }
         // };
         let size = field.ty.size();
+        if amount_of_bits > size * 8 {
+            return Err(syn::Error::new(
+                field.ident.span(),
+                "field's type doesn't fit the bit size",
+            ));
+        }
         let new_array_quote =
             if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
-- 
2.43.0


From 602f8e28aa478597db15841aafecab34edc22e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 15/29] fix: primitive enum values that do not fit the
 primitive are refused

---
 bondrewd-derive/src/enums/parse.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..08a6592 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -614,6 +614,25 @@ impl EnumInfo {
             variants,
         };
 
+        // every variant must have a number that fits in the primitive.
+        let max = match info.primitive.to_string().as_str() {
+            "u8" => u8::MAX as u64,
+            "u16" => u16::MAX as u64,
+            _ => u32::MAX as u64,
+        };
+        for variant in info.variants.iter() {
+            if let EnumVariantType::UnsignedValue(ref value) | EnumVariantType::CatchAll(ref value) =
+                variant.value
+            {
+                if !matches!(value.to_string().parse::<u64>(), Ok(value) if value <= max) {
+                    return Err(syn::Error::new(
+                        variant.name.span(),
+                        format!("value does not fit in {}", info.primitive),
+                    ));
+                }
+            }
+        }
+
         Ok(info)
     }
 }
-- 
2.43.0


From c597bcad4e14e9069991bc9ce7d0edcccc815833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 16/29] fix: lsb0 structs count the bits unused before the
 first field

---
 bondrewd-derive/src/structs/common.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 8142364..0e7587d 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -984,6 +984,8 @@ pub struct AttrInfo {
     pub enforcement: StructEnforcement,
     pub default_endianess: Endianness,
     pub fill_bits: Option<usize>,
+    /// the amount of bits `lsb0` mirrored the fields over, which includes bits unused before the first field.
+    pub mirrored_bits: usize,
     pub id: Option<u128>,
     pub invalid: bool,
 }
@@ -996,6 +998,7 @@ impl Default for AttrInfo {
             enforcement: StructEnforcement::NoRules,
             default_endianess: Endianness::None,
             fill_bits: None,
+            mirrored_bits: 0,
             id: None,
             invalid: false,
         }
@@ -1046,7 +1049,7 @@ impl StructInfo {
             total = total.max(field.attrs.bit_range.end);
         }
 
-        total
+        total.max(self.attrs.mirrored_bits)
     }
 
     pub fn total_bytes(&self) -> usize {
@@ -1232,7 +1235,7 @@ impl ObjectInfo {
             syn::Data::Struct(ref data) => {
                 let tuple = matches!(data.fields, syn::Fields::Unnamed(_));
                 Self::parse_struct_attrs(&input.attrs, &mut attrs, false)?;
-                let fields = Self::parse_fields(&name, &data.fields, &attrs, None, tuple)?;
+                let fields = Self::parse_fields(&name, &data.fields, &mut attrs, None, tuple)?;
                 Ok(Self::Struct(StructInfo {
                     name,
                     attrs,
@@ -1298,7 +1301,7 @@ impl ObjectInfo {
                     let fields = Self::parse_fields(
                         &variant_name,
                         &variant.fields,
-                        &attrs,
+                        &mut attrs,
                         Some(id_field.clone()),
                         tuple,
                     )?;
@@ -1839,7 +1842,7 @@ impl ObjectInfo {
     pub fn parse_fields(
         name: &Ident,
         fields: &Fields,
-        attrs: &AttrInfo,
+        attrs: &mut AttrInfo,
         first_field: Option<FieldInfo>,
         tuple: bool,
     ) -> syn::Result<Vec<FieldInfo>> {
@@ -1980,6 +1983,7 @@ impl ObjectInfo {
                 .map(|field| field.attrs.bit_range.end)
                 .max()
                 .unwrap_or(bit_size);
+            attrs.mirrored_bits = bit_size;
             for ref mut field in parsed_fields.iter_mut() {
                 field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
                     ..(bit_size - field.attrs.bit_range.start);
-- 
2.43.0


From a71b7c799d71239141357d0642ab46bee1a51c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 17/29] fix: fill bytes follow the furthest field, not the last
 declared one

---
 bondrewd-derive/src/structs/common.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 0e7587d..19eb51a 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1949,11 +1949,12 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
+            // the last field is not the furthest one if it is redundant or has an explicit bit range.
+            let first_bit = parsed_fields
+                .iter()
+                .map(|field| field.attrs.bit_range.end)
+                .max()
+                .unwrap_or(0_usize);
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
-- 
2.43.0


From 17fc5656c10fa85adb2bd7fc50252206a674fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 18/29] fix: primitive enums with 256 or more variants compile

---
 bondrewd-derive/src/enums/from_bytes.rs | 8 +++++---
 bondrewd-derive/src/enums/into_bytes.rs | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index b3e5e2a..256dab8 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -40,11 +40,13 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
         };
     }
     let struct_name = &enum_info.name;
-    let comment =
-        format!("Returns `{struct_name}` Variant that was represented by the provided `u8`.");
+    let primitive = &enum_info.primitive;
+    let comment = format!(
+        "Returns `{struct_name}` Variant that was represented by the provided `{primitive}`."
+    );
     Ok(quote! {
         #[doc = #comment]
-        fn from_primitive(input: u8) -> Self {
+        fn from_primitive(input: #primitive) -> Self {
             match input {
                 #arms
             }
diff --git a/bondrewd-derive/src/enums/into_bytes.rs b/bondrewd-derive/src/enums/into_bytes.rs
index 62c8748..7417af5 100644
--- a/bondrewd-derive/src/enums/into_bytes.rs
+++ b/bondrewd-derive/src/enums/into_bytes.rs
@@ -40,10 +40,11 @@ pub fn generate_into_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
         };
     }
     let struct_name = &enum_info.name;
-    let comment = format!("Returns a `u8` representing a Variant of `{struct_name}`.");
+    let primitive = &enum_info.primitive;
+    let comment = format!("Returns a `{primitive}` representing a Variant of `{struct_name}`.");
     Ok(quote! {
         #[doc = #comment]
-        fn into_primitive(self) -> u8 {
+        fn into_primitive(self) -> #primitive {
             match self {
                 #arms
             }
-- 
2.43.0


From c8af4529ffb806cb41657b0016c9503583fe9a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 19/29] fix: enforce_bits and enforce_bytes of an enum are
 refused when they are not the size

---
 bondrewd-derive/src/structs/common.rs | 38 +++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 19eb51a..fb3606e 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -965,6 +965,8 @@ pub enum StructEnforcement {
     EnforceFullBytes,
     /// enforce an amount of bits total that need to be used.
     EnforceBitAmount(usize),
+    /// the same for an amount of bytes (given in bits), the last of which may be partially used in enums.
+    EnforceByteAmount(usize),
 }
 
 #[derive(Clone)]
@@ -1127,6 +1129,8 @@ pub struct EnumAttrInfoBuilder {
     pub id_bits: Option<usize>,
     pub id_position: IdPosition,
     pub total_bit_size: Option<usize>,
+    /// `total_bit_size` was given in bytes, the last one may be partially used.
+    pub total_is_bytes: bool,
     pub payload_bit_size: Option<usize>,
 }
 
@@ -1150,6 +1154,7 @@ impl Default for EnumAttrInfoBuilder {
             id_bits: None,
             id_position: IdPosition::Leading,
             total_bit_size: None,
+            total_is_bytes: false,
             payload_bit_size: None,
         }
     }
@@ -1396,6 +1401,19 @@ impl ObjectInfo {
                         format!("found no variants and could not determine size of id"),
                     ));
                 };
+                if let (None, Some(total)) = (enum_attrs.payload_bit_size, enum_attrs.total_bit_size) {
+                    let used = if enum_attrs.total_is_bytes {
+                        (largest + 7) / 8 * 8
+                    } else {
+                        largest
+                    };
+                    if total != used {
+                        return Err(Error::new(
+                            data.enum_token.span(),
+                            format!("Bit Enforcement failed because bondrewd detected {largest} total bits used by the largest variant and its id, but the bit enforcement attribute is defined as {total} bits."),
+                        ));
+                    }
+                }
                 let enum_attrs = match (enum_attrs.payload_bit_size, enum_attrs.total_bit_size) {
                     (Some(payload), None) => {
                         if let Some(id) = enum_attrs.id_bits {
@@ -1666,9 +1684,18 @@ impl ObjectInfo {
             }
         }
         Self::parse_struct_attrs_meta(span, info, &meta, false)?;
-        if let StructEnforcement::EnforceBitAmount(bits) = info.enforcement {
-            enum_info.total_bit_size = Some(bits);
-            info.enforcement = StructEnforcement::NoRules;
+        match info.enforcement {
+            StructEnforcement::EnforceBitAmount(bits) => {
+                enum_info.total_bit_size = Some(bits);
+                enum_info.total_is_bytes = false;
+                info.enforcement = StructEnforcement::NoRules;
+            }
+            StructEnforcement::EnforceByteAmount(bits) => {
+                enum_info.total_bit_size = Some(bits);
+                enum_info.total_is_bytes = true;
+                info.enforcement = StructEnforcement::NoRules;
+            }
+            _ => {}
         }
         Ok(())
     }
@@ -1746,7 +1773,7 @@ impl ObjectInfo {
                     if let Lit::Int(ref val) = value.lit {
                         match val.base10_parse::<usize>() {
                             Ok(value) => {
-                                info.enforcement = StructEnforcement::EnforceBitAmount(value * 8);
+                                info.enforcement = StructEnforcement::EnforceByteAmount(value * 8);
                             }
                             Err(err) => {
                                 return Err(syn::Error::new(
@@ -1934,7 +1961,8 @@ impl ObjectInfo {
                     ));
                 }
             }
-            StructEnforcement::EnforceBitAmount(expected_total_bits) => {
+            StructEnforcement::EnforceBitAmount(expected_total_bits)
+            | StructEnforcement::EnforceByteAmount(expected_total_bits) => {
                 if bit_size != expected_total_bits {
                     return Err(syn::Error::new(
                         name.span(),
-- 
2.43.0


From 85973d018bbb95777c25c9514a9cf8282a82b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 20/29] fix: block lengths that do not fit the elements are
 refused

---
 bondrewd-derive/src/structs/common.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index fb3606e..1e57230 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -937,6 +937,18 @@ impl FieldInfo {
             }
         };
 
+        // the bits of a block must fit in its elements and reach all of them.
+        if let FieldDataType::BlockArray(ref sub_field, length, _) = data_type {
+            let bits = attrs.bit_length();
+            let element_bits = sub_field.ty.size() * 8;
+            if bits > length * element_bits || bits + element_bits <= length * element_bits {
+                return Err(Error::new(
+                    ident.span(),
+                    format!("a block of {length} elements with {element_bits} bits each can not use {bits} bits"),
+                ));
+            }
+        }
+
         // construct the field we are parsed.
         let new_field = FieldInfo {
             ident: Box::new(ident),
-- 
2.43.0


From e4a4e7b81d004c1b83863ef792c46c0fc489f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 21/29] fix: overlapping_bits larger than the field is refused

---
 bondrewd-derive/src/structs/common.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 1e57230..fb020a9 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -937,6 +937,15 @@ impl FieldInfo {
             }
         };
 
+        if let OverlapOptions::Allow(shared) = attrs.overlap {
+            if shared > attrs.bit_length() {
+                return Err(Error::new(
+                    ident.span(),
+                    format!("overlapping_bits is defined as {shared}, but the field has {} bits", attrs.bit_length()),
+                ));
+            }
+        }
+
         // the bits of a block must fit in its elements and reach all of them.
         if let FieldDataType::BlockArray(ref sub_field, length, _) = data_type {
             let bits = attrs.bit_length();
-- 
2.43.0


From dc7a8fc4f0bc89b9eb5652baa7db8b93a72ec0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 22/29] fix: fill_bytes smaller than the fields is refused

---
 bondrewd-derive/src/structs/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index fb020a9..2263f9f 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -2004,6 +2004,12 @@ impl ObjectInfo {
                 .map(|field| field.attrs.bit_range.end)
                 .max()
                 .unwrap_or(0_usize);
+            if fill_bits < first_bit {
+                return Err(syn::Error::new(
+                    name.span(),
+                    format!("fill_bytes is defined as {} bits, but {first_bit} bits are used by defined fields.", fill_bits),
+                ));
+            }
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
-- 
2.43.0


From f354c732862edae84e8f51d8abb35a188a5c295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 23/29] fix: empty bit ranges are refused

---
 bondrewd-derive/src/structs/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 3a6d842..6741e74 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -278,6 +278,12 @@ impl FieldAttrBuilder {
                                 let split = val_string.split("..").collect::<Vec<&str>>();
                                 if split.len() == 2 {
                                     match (split[0].parse::<usize>(), split[1].parse::<usize>()) {
+                                        (Ok(start), Ok(end)) if end <= start => {
+                                            return Err(Error::new(
+                                                builder.span(),
+                                                "range end must be greater than range start",
+                                            ));
+                                        }
                                         (Ok(start), Ok(end)) => match builder.bit_range {
                                             FieldBuilderRange::Range(ref range) => {
                                                 if range.end - range.start == end - start {
-- 
2.43.0


From db90a257143df6bab80f5121bbc78a70d6fd9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 24/29] fix: signed big endian fields wider than their type are
 refused

---
 bondrewd-derive/src/structs/from_bytes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 154aaff..fb7bfc7 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -1543,6 +1543,12 @@ fn add_sign_fix_quote(
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
             if let NumberSignage::Signed = sign {
+                if *amount_of_bits > *size * 8 {
+                    return Err(syn::Error::new(
+                        field.ident().span(),
+                        "signed numbers can not use more bits than their type has",
+                    ));
+                }
                 let (bit_to_isolate, mut sign_index) = match field.attrs.endianness.as_ref() {
                     Endianness::Big => (
                         field.attrs.bit_range.start % 8,
-- 
2.43.0


From 9a7747d36eb235969cae78c273a78bbebaa739db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 25/29] fix: arrays of floats are full sized per element

---
 bondrewd-derive/src/structs/common.rs | 36 +++++++++++++++------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 2263f9f..7174dda 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -472,14 +472,7 @@ impl FieldDataType {
                             NumberSignage::Signed,
                             quote! {#type_quote},
                         )),
-                        "f32" => {
-                            if let FieldBuilderRange::Range(ref span) = attrs.bit_range {
-                                if 32 != span.end - span.start {
-                                    return Err(syn::Error::new(field_span, format!("f32 must be full sized, if this is a problem for you open an issue.. provided bit length = {}.", span.end - span.start)));
-                                }
-                            }
-                            Ok(FieldDataType::Float(4, quote! {#type_quote}))
-                        }
+                        "f32" => Ok(FieldDataType::Float(4, quote! {#type_quote})),
                         "u32" => Ok(FieldDataType::Number(
                             4,
                             NumberSignage::Unsigned,
@@ -491,14 +484,7 @@ impl FieldDataType {
                             quote! {#type_quote},
                         )),
                         "char" => Ok(FieldDataType::Char(4, quote! {#type_quote})),
-                        "f64" => {
-                            if let FieldBuilderRange::Range(ref span) = attrs.bit_range {
-                                if 64 != span.end - span.start {
-                                    return Err(syn::Error::new(field_span, format!("f64 must be full sized, if this is a problem for you open an issue. provided bit length = {}.", span.end - span.start)));
-                                }
-                            }
-                            Ok(FieldDataType::Float(8, quote! {#type_quote}))
-                        }
+                        "f64" => Ok(FieldDataType::Float(8, quote! {#type_quote})),
                         "u64" => Ok(FieldDataType::Number(
                             8,
                             NumberSignage::Unsigned,
@@ -946,6 +932,24 @@ impl FieldInfo {
             }
         }
 
+        // floats can not be shortened, also not as elements of an array.
+        let mut element_type = &data_type;
+        let mut elements = 1;
+        while let FieldDataType::ElementArray(ref sub_field, length, _)
+        | FieldDataType::BlockArray(ref sub_field, length, _) = element_type
+        {
+            element_type = &sub_field.ty;
+            elements *= *length;
+        }
+        if let FieldDataType::Float(size, ref type_ident) = element_type {
+            if attrs.bit_length() != elements * size * 8 {
+                return Err(Error::new(
+                    ident.span(),
+                    format!("{type_ident} must be full sized, if this is a problem for you open an issue. provided bit length = {}.", attrs.bit_length()),
+                ));
+            }
+        }
+
         // the bits of a block must fit in its elements and reach all of them.
         if let FieldDataType::BlockArray(ref sub_field, length, _) = data_type {
             let bits = attrs.bit_length();
-- 
2.43.0


From e059b8c7ffe771020cb6ace5821f4ed92d0ccb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 26/29] fix: block arrays of structs and enums keep the element
 type

---
 bondrewd-derive/src/structs/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7174dda..03b2018 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -299,9 +299,11 @@ impl FieldDataType {
                                         quote! {[#type_ident;#array_length]},
                                     )
                                 }
-                                FieldAttrBuilderType::BlockArray(_) => {
+                                FieldAttrBuilderType::BlockArray(ref sub) => {
                                     let mut sub_attrs = attrs.clone();
                                     if let Type::Array(_) = array_path.elem.as_ref() {
+                                    } else if let Some(ref ty) = sub.as_ref() {
+                                        sub_attrs.ty = ty.clone();
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
                                     }
-- 
2.43.0


From 9b2efe6bac717ebb1b6bf9424c08af13a80f30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 27/29] fix: variants that are reversed against their enum are
 refused

---
 bondrewd-derive/src/structs/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 03b2018..22ba51e 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1321,12 +1321,20 @@ impl ObjectInfo {
                 };
                 for variant in data.variants.iter() {
                     let tuple = matches!(variant.fields, syn::Fields::Unnamed(_));
+                    let (flip, lsb_zero) = (attrs.flip, attrs.lsb_zero);
                     let mut attrs = attrs.clone();
                     if let Some((_, ref expr)) = variant.discriminant {
                         let parsed = Self::parse_lit_discriminant_expr(expr)?;
                         attrs.id = Some(parsed);
                     }
                     Self::parse_struct_attrs(&variant.attrs, &mut attrs, true)?;
+                    // the id must be found before the variant is known.
+                    if attrs.flip != flip || attrs.lsb_zero != lsb_zero {
+                        return Err(syn::Error::new(
+                            variant.ident.span(),
+                            "a variant can not be reversed or read from another end than its enum",
+                        ));
+                    }
                     let variant_name = variant.ident.clone();
                     // TODO currently we always add the id field, but some people might want the id to be a
                     // field in the variant. this would no longer need to insert the id as a "fake-field".
-- 
2.43.0


From 70d5dc5c1d3df7ad0dd2e2207ab04f3b96e94b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 28/29] fix: number comparison of primitive enums needs no std

---
 bondrewd-derive/src/enums/partial_eq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/partial_eq.rs b/bondrewd-derive/src/enums/partial_eq.rs
index 89264cf..1876b44 100644
--- a/bondrewd-derive/src/enums/partial_eq.rs
+++ b/bondrewd-derive/src/enums/partial_eq.rs
@@ -55,7 +55,7 @@ pub fn generate_partial_eq(enum_info: &EnumInfo) -> proc_macro2::TokenStream {
         }
     }
     quote! {
-        impl std::cmp::PartialEq<#primitive_ty> for #enum_name {
+        impl core::cmp::PartialEq<#primitive_ty> for #enum_name {
             fn eq(&self, other: &#primitive_ty) -> bool {
                 match (self, other) {
                     #comp_arms
-- 
2.43.0


From 045632326f72e0be88169701c4e57a886be295a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 29/29] fix: data enums compare with numbers without dyn_fns
 too

---
 bondrewd-derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 25be53f..6730de6 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1920,6 +1920,22 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                 #getter_setters_quotes
                 #hex_fns_quote
             };
+            #[cfg(feature = "part_eq_enums")]
+            let id_ident = match enum_info.id_ident() {
+                Ok(ii) => ii,
+                Err(err) => {
+                    return err.to_compile_error().into();
+                }
+            };
+            #[cfg(feature = "part_eq_enums")]
+            let to_bytes_quote = quote! {
+                #to_bytes_quote
+                impl PartialEq<#id_ident> for #struct_name {
+                    fn eq(&self, other: &#id_ident) -> bool {
+                        self.id() == *other
+                    }
+                }
+            };
             if dyn_fns {
                 let from_vec_quote = fields_from_bytes.from_slice_field_fns;
                 let vis = &enum_info.vis;
@@ -1964,22 +1980,6 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                         #from_vec_quote
                     }
                 };
-                #[cfg(feature = "part_eq_enums")]
-                let id_ident = match enum_info.id_ident() {
-                    Ok(ii) => ii,
-                    Err(err) => {
-                        return err.to_compile_error().into();
-                    }
-                };
-                #[cfg(feature = "part_eq_enums")]
-                let to_bytes_quote = quote! {
-                    #to_bytes_quote
-                    impl PartialEq<#id_ident> for #struct_name {
-                        fn eq(&self, other: &#id_ident) -> bool {
-                            self.id() == *other
-                        }
-                    }
-                };
                 TokenStream::from(to_bytes_quote)
             } else {
                 TokenStream::from(to_bytes_quote)
-- 
2.43.0

