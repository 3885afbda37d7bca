From 6f4514d094f275fdbb1033e41bdc7361f5ee24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:51 +0000
Subject: [PATCH 01/23] fix: accept either the delegate or the manager

assert_delegate let the last delegate in the list decide alone: on a managed
asset the manager extension overrode the delegate approved by the owner, so a
delegate holding the required role was rejected.
---
 programs/asset/program/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/asset/program/src/utils.rs b/programs/asset/program/src/utils.rs
index f726f1c..4c74c11 100644
--- a/programs/asset/program/src/utils.rs
+++ b/programs/asset/program/src/utils.rs
@@ -36,6 +36,11 @@ pub fn assert_delegate(
     delegates.iter().fold(
         Err(AssetError::DelegateNotFound.into()),
         |result, delegate| {
+            // any of the delegates is sufficient
+            if result.is_ok() {
+                return result;
+            }
+
             if let Some(delegate) = delegate {
                 require!(
                     *delegate.address == *target,
-- 
2.43.0


From fbe6671ff98d77c449bfef9096810cd4dfcc071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:51 +0000
Subject: [PATCH 02/23] fix: do not wrap the total share of creators

The shares were summed modulo 256, so that e.g. shares of 200 and 156 were
accepted as a total of 100.
---
 programs/asset/types/src/extensions/creators.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..236c85c 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -67,7 +67,7 @@ impl<'a> ExtensionDataMut<'a> for CreatorsMut<'a> {
 impl Lifecycle for CreatorsMut<'_> {
     /// Validates the creators' share added up to `100`.
     fn on_create(&mut self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
 
         self.creators.iter_mut().for_each(|creator| {
             // creators are always initialized as unverified, unless it matches
@@ -77,7 +77,7 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != TOTAL_SHARE {
@@ -88,7 +88,7 @@ impl Lifecycle for CreatorsMut<'_> {
     }
 
     fn on_update(&mut self, other: &mut Self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
         other.creators.iter_mut().for_each(|creator| {
             if let Some(original) = self.get(&creator.address) {
                 // creators maintain their verified status
@@ -102,7 +102,7 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != 100 {
-- 
2.43.0


From 0166a7137bfd27cd972be508438f3658176fc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:51 +0000
Subject: [PATCH 03/23] fix: keep extension boundaries consistent when removing
 an extension

Removing an extension moved the ones after it but left their boundaries
pointing past their data, so the asset could no longer be walked. The search
also missed a trailing extension without data, and matched spare space at the
end of the account when asked to remove the type None.
---
 .../asset/program/src/processor/remove.rs     | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..6d43143 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,15 +71,15 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
+            Ok(ExtensionType::None) => break,
             Ok(t) if t == extension_type => {
                 boundary = Some(current.boundary() as usize);
                 break;
             }
-            Ok(ExtensionType::None) => break,
             _ => offset = current.boundary() as usize,
         }
     }
@@ -126,6 +126,28 @@ pub fn process_remove(
     }
 
     let bytes_to_remove = boundary.saturating_sub(offset);
+
+    // updates the boundaries of the extensions that were moved
+
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+    let end = account_data.len().saturating_sub(bytes_to_remove);
+
+    while offset + Extension::LEN <= end {
+        let extension = Extension::load_mut(&mut account_data[offset..offset + Extension::LEN]);
+
+        if let Ok(ExtensionType::None) = extension.try_extension_type() {
+            break;
+        }
+
+        let boundary = extension
+            .boundary()
+            .saturating_sub(bytes_to_remove as u32);
+        extension.set_boundary(boundary);
+        offset = boundary as usize;
+    }
+
+    drop(account_data);
+
     resize(
         ctx.accounts
             .asset
-- 
2.43.0


From 27434604a1ec5097c0c5082a3c2dd1c155b3c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 04/23] fix: validate the extension data of an update buffer

The validation started at the extension header, 16 bytes before the data that
is copied to the asset: valid buffers were rejected and the data that ended up
on the asset was not validated (and the header could be modified).
---
 programs/asset/program/src/processor/update.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..15b0d3c 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -202,10 +202,11 @@ pub fn process_update(
             drop(extension_data);
 
             let start = offset + Extension::LEN;
+            let buffer_start = Asset::LEN + Extension::LEN;
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[buffer_start..buffer_start + header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From 317b40307de7db82e85fd85c12aa22ef9a8361d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 05/23] fix: validate updates that carry no extension data

An update with an extension without data skipped the validation altogether:
it could add an empty manager or proxy extension, replace any extension by an
empty one, and write a header of type None.
---
 .../asset/program/src/processor/update.rs     | 40 ++++++++++---------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 15b0d3c..4022a0e 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -151,6 +151,13 @@ pub fn process_update(
             return Err(ProgramError::InvalidInstructionData);
         };
 
+        require!(
+            extension_type != ExtensionType::None,
+            AssetError::ExtensionDataInvalid,
+            "invalid extension type: {:?}",
+            extension_type
+        );
+
         let mut offset = Asset::LEN;
         // extension details:
         //   - current length
@@ -220,25 +227,22 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
-                let start = offset + Extension::LEN;
-                // validate the extension data
-                validate(
-                    extension_type,
-                    extension_data.as_mut_slice(),
-                    if update {
-                        Some(&mut account_data[start..start + current_length])
-                    } else {
-                        None
-                    },
-                    ctx.accounts.authority.key(),
-                )?;
+            // an extension without data is validated as an empty one
+            let mut extension_data = args.data.unwrap_or_default();
+            let start = offset + Extension::LEN;
+            // validate the extension data
+            validate(
+                extension_type,
+                extension_data.as_mut_slice(),
+                if update {
+                    Some(&mut account_data[start..start + current_length])
+                } else {
+                    None
+                },
+                ctx.accounts.authority.key(),
+            )?;
 
-                (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
-            };
+            let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
             msg!("Updating extension from instruction data");
-- 
2.43.0


From d5430c6609b4e6321009ec922e454602da5ba1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 06/23] fix: stop at the spare space of an account when
 updating an extension

An account resized to have spare space made updates of its extensions fail:
the search panicked on less than a header of space, and the boundary update
followed the zeroed header of the spare space back to the start of the
account.
---
 programs/asset/program/src/processor/update.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 4022a0e..3fb3383 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -165,7 +165,7 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
@@ -351,8 +351,13 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+            if let Ok(ExtensionType::None) = extension.try_extension_type() {
+                break;
+            }
+
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From 40a72107343270123b71fae993fa6d5aa9110781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 07/23] fix: keep written data within the extension length

A write could go past the declared length of the extension, leaving trailing
bytes that are taken for another extension; and overwriting all of the data of
an extension did not pad the account to the extension boundary, so the asset
could not be created.
---
 programs/asset/program/src/processor/write.rs | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..ee7e3ef 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -90,35 +90,35 @@ pub(crate) fn process_write(
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
 
-        resize(
-            offset.saturating_add(data.bytes.len()),
-            ctx.accounts.asset,
-            Some(ctx.accounts.payer),
-            Some(ctx.accounts.system_program),
-        )?;
         // when overwriting, we start from the beginning of the offset
         offset
     } else {
         #[cfg(feature = "logging")]
         msg!("Appending extension data");
 
-        let offset = ctx.accounts.asset.data_len();
-        let mut extended = offset.saturating_add(data.bytes.len());
-
-        if extended == expected {
-            extended = boundary as usize;
-        }
-
-        resize(
-            extended,
-            ctx.accounts.asset,
-            Some(ctx.accounts.payer),
-            Some(ctx.accounts.system_program),
-        )?;
         // the offset is the end of the account
-        offset
+        ctx.accounts.asset.data_len()
     };
 
+    let mut extended = offset.saturating_add(data.bytes.len());
+    // the data cannot go past the extension length
+    require!(
+        extended <= expected,
+        AssetError::ExtensionLengthInvalid,
+        "extension length mismatch"
+    );
+
+    if extended == expected {
+        extended = boundary as usize;
+    }
+
+    resize(
+        extended,
+        ctx.accounts.asset,
+        Some(ctx.accounts.payer),
+        Some(ctx.accounts.system_program),
+    )?;
+
     // copy the data to the buffer
 
     sol_memcpy(
-- 
2.43.0


From 10ecefd504e33a5134a3ce4e702608114048f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 08/23] fix: do not allocate an extension of type None

The header of type None marks the end of the extensions: its data could not be
found again and was overwritten by (or taken for) the next extension.
---
 programs/asset/program/src/processor/allocate.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/allocate.rs b/programs/asset/program/src/processor/allocate.rs
index fdc4e71..caa3e06 100644
--- a/programs/asset/program/src/processor/allocate.rs
+++ b/programs/asset/program/src/processor/allocate.rs
@@ -1,5 +1,5 @@
 use nifty_asset_types::{
-    extensions::Extension,
+    extensions::{Extension, ExtensionType},
     podded::ZeroCopy,
     state::{Asset, Discriminator},
 };
@@ -40,6 +40,13 @@ pub fn process_allocate(
         "asset"
     );
 
+    require!(
+        args.extension.extension_type != ExtensionType::None,
+        AssetError::ExtensionDataInvalid,
+        "invalid extension type: {:?}",
+        args.extension.extension_type
+    );
+
     // offset on the account data where the new extension will be written; this will
     // include any padding required to maintain the 8-bytes alignment
     let (exists, offset) = if ctx.accounts.asset.data_is_empty() {
-- 
2.43.0


From 1b72a31fb260d49286c1abc64617f06a7b92b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 09/23] fix: verify a creator on create only if it signed

A creator matching the authority was marked as verified even when the
authority did not sign the create instruction.
---
 programs/asset/program/src/processor/create.rs | 6 +++++-
 programs/bridge/src/processor/create.rs        | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/create.rs b/programs/asset/program/src/processor/create.rs
index 975e562..0033b46 100644
--- a/programs/asset/program/src/processor/create.rs
+++ b/programs/asset/program/src/processor/create.rs
@@ -189,7 +189,11 @@ pub fn process_create(
         on_create(
             extension.extension_type(),
             &mut current[..extension.length() as usize],
-            Some(ctx.accounts.authority.key()),
+            // only a signing authority can be verified as a creator
+            ctx.accounts
+                .authority
+                .is_signer()
+                .then(|| ctx.accounts.authority.key()),
         )
         .map_err(|error| {
             msg!("[ERROR] {}", error);
diff --git a/programs/bridge/src/processor/create.rs b/programs/bridge/src/processor/create.rs
index 7e310c4..609a78e 100644
--- a/programs/bridge/src/processor/create.rs
+++ b/programs/bridge/src/processor/create.rs
@@ -273,7 +273,10 @@ pub fn process_create(
 
     CreateCpiBuilder::new(ctx.accounts.nifty_asset_program)
         .asset(ctx.accounts.asset)
-        .authority(ctx.accounts.update_authority, false)
+        .authority(
+            ctx.accounts.update_authority,
+            ctx.accounts.update_authority.is_signer,
+        )
         .owner(ctx.accounts.vault)
         .payer(Some(ctx.accounts.payer))
         .system_program(Some(ctx.accounts.system_program))
-- 
2.43.0


From b0be3310500f6a1d4e3650b95b8377c8207315dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 10/23] fix: do not duplicate the operator when encoding a Not
 constraint

---
 programs/asset/types/src/constraints/not.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/programs/asset/types/src/constraints/not.rs b/programs/asset/types/src/constraints/not.rs
index 126546f..96fabb9 100644
--- a/programs/asset/types/src/constraints/not.rs
+++ b/programs/asset/types/src/constraints/not.rs
@@ -29,10 +29,7 @@ impl Assertable for Not<'_> {
     }
 
     fn as_bytes(&self) -> Vec<u8> {
-        let mut bytes = Vec::with_capacity(self.constraint.size());
-        bytes.extend_from_slice(bytemuck::bytes_of(self.constraint.operator));
-        bytes.extend_from_slice(self.constraint.as_bytes().as_ref());
-        bytes
+        self.constraint.as_bytes()
     }
 }
 
-- 
2.43.0


From 741a0f3b198ff0cc966e1c677156a0b0c756abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:12 +0000
Subject: [PATCH 11/23] fix: forward the Resize instruction of the interface

The interface rejected the Resize instruction, although it is part of it.
---
 programs/asset/interface/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 386a8b6..5f84013 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -78,6 +78,7 @@ macro_rules! log_instruction_name {
             14 => "Ungroup",
             15 => "Handover",
             16 => "Remove",
+            17 => "Resize",
             _ => return Err(solana_program::program_error::ProgramError::InvalidInstructionData),
         };
 
-- 
2.43.0


From 2e0484424d9946c7c7e48ef1975f104fc1c8559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:12 +0000
Subject: [PATCH 12/23] fix: do not let a proxied asset sign in the role of
 another account

The proxy adds the signature of the asset to the instructions that it forwards.
Passing the asset also as the authority (which it is on assets created by the
proxy program), owner or signer let anyone hand over, resize or transfer it.
---
 programs/asset/interface/src/processor.rs |  7 +++++++
 programs/proxy/src/processor/transfer.rs  | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 5f84013..8cf860a 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -96,6 +96,13 @@ impl Interface {
         log_instruction_name!(instruction_data);
 
         let asset = accounts.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
+
+        // the asset is promoted to a signer below, therefore it cannot be used in
+        // any other role (e.g., authority) that would be authorized by its signature
+        if !asset.is_signer && accounts[1..].iter().any(|other| other.key == asset.key) {
+            return Err(ProgramError::MissingRequiredSignature);
+        }
+
         let data = (*asset.data).borrow();
         fetch_proxy_data!(&data, signer, _authority);
         // drop the data before invoking the CPI
diff --git a/programs/proxy/src/processor/transfer.rs b/programs/proxy/src/processor/transfer.rs
index e040b2f..25025b7 100644
--- a/programs/proxy/src/processor/transfer.rs
+++ b/programs/proxy/src/processor/transfer.rs
@@ -12,13 +12,23 @@ use solana_program::{
     pubkey::Pubkey, sysvar::Sysvar,
 };
 
-use crate::processor::{CONTENT_TYPE, IMAGE};
+use crate::{
+    processor::{CONTENT_TYPE, IMAGE},
+    require,
+};
 
 pub fn process_transfer<'a>(
     _program_id: &Pubkey,
     ctx: nifty_asset_interface::accounts::Context<'a, TransferAccounts<'a>>,
 ) -> ProgramResult {
-    // account validation happends on the CPI
+    // account validation happends on the CPI, but the asset is a signer of the CPI
+    // so we need to make sure that the transfer was signed by the signer account
+
+    require!(
+        ctx.accounts.signer.is_signer,
+        ProgramError::MissingRequiredSignature,
+        "signer"
+    );
 
     let data = (*ctx.accounts.asset.data).borrow();
     fetch_proxy_data!(
-- 
2.43.0


From 59f94444d53b8ab2b75af60d2d4f7d85c12fbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:12 +0000
Subject: [PATCH 13/23] fix: reject constraints that target an unknown account

Any 8 bytes were loaded as an `Account`, which is undefined behaviour unless
they are one of its variants.
---
 programs/asset/types/src/constraints/mod.rs       | 15 +++++++++++++++
 programs/asset/types/src/constraints/owned_by.rs  |  2 +-
 .../asset/types/src/constraints/pubkey_match.rs   |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/programs/asset/types/src/constraints/mod.rs b/programs/asset/types/src/constraints/mod.rs
index 5caa944..2524df3 100644
--- a/programs/asset/types/src/constraints/mod.rs
+++ b/programs/asset/types/src/constraints/mod.rs
@@ -65,6 +65,21 @@ impl Account {
     pub fn into_bytes(self) -> [u8; 8] {
         (self as u64).to_le_bytes()
     }
+
+    /// Loads an account from its byte representation.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the bytes do not represent a valid account.
+    pub fn load_checked(bytes: &[u8]) -> &Self {
+        let value = u64::from_le_bytes(bytes.try_into().unwrap());
+
+        if value > Account::Recipient as u64 {
+            panic!("invalid account value: {value}");
+        }
+
+        Account::load(bytes)
+    }
 }
 
 impl From<&str> for Account {
diff --git a/programs/asset/types/src/constraints/owned_by.rs b/programs/asset/types/src/constraints/owned_by.rs
index d4f5348..5057ec6 100644
--- a/programs/asset/types/src/constraints/owned_by.rs
+++ b/programs/asset/types/src/constraints/owned_by.rs
@@ -22,7 +22,7 @@ pub struct OwnedBy<'a> {
 impl<'a> FromBytes<'a> for OwnedBy<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         let (account, owners) = bytes.split_at(size_of::<Account>());
-        let account = Account::load(account);
+        let account = Account::load_checked(account);
         let owners = bytemuck::cast_slice(owners);
         Self { account, owners }
     }
diff --git a/programs/asset/types/src/constraints/pubkey_match.rs b/programs/asset/types/src/constraints/pubkey_match.rs
index 0841a51..e2b09d1 100644
--- a/programs/asset/types/src/constraints/pubkey_match.rs
+++ b/programs/asset/types/src/constraints/pubkey_match.rs
@@ -22,7 +22,7 @@ pub struct PubkeyMatch<'a> {
 impl<'a> FromBytes<'a> for PubkeyMatch<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         let (account, pubkeys) = bytes.split_at(size_of::<Account>());
-        let account = Account::load(account);
+        let account = Account::load_checked(account);
         let pubkeys = bytemuck::cast_slice(pubkeys);
         Self { account, pubkeys }
     }
-- 
2.43.0


From 1307160f270489ea87151575a70622fa5343bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:30 +0000
Subject: [PATCH 14/23] fix: drop imports left unused by the constraint account
 check

---
 programs/asset/types/src/constraints/owned_by.rs     | 1 -
 programs/asset/types/src/constraints/pubkey_match.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/programs/asset/types/src/constraints/owned_by.rs b/programs/asset/types/src/constraints/owned_by.rs
index 5057ec6..8e4ad04 100644
--- a/programs/asset/types/src/constraints/owned_by.rs
+++ b/programs/asset/types/src/constraints/owned_by.rs
@@ -1,6 +1,5 @@
 use std::{mem::size_of, ops::Deref};
 
-use podded::ZeroCopy;
 use solana_program::pubkey::Pubkey;
 
 use crate::{
diff --git a/programs/asset/types/src/constraints/pubkey_match.rs b/programs/asset/types/src/constraints/pubkey_match.rs
index e2b09d1..05bfe0e 100644
--- a/programs/asset/types/src/constraints/pubkey_match.rs
+++ b/programs/asset/types/src/constraints/pubkey_match.rs
@@ -1,6 +1,5 @@
 use std::{mem::size_of, ops::Deref};
 
-use podded::ZeroCopy;
 use solana_program::pubkey::Pubkey;
 
 use crate::{
-- 
2.43.0


From 88deb6f2aa1cc2b6a258d6b2f11ad478decea5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:30 +0000
Subject: [PATCH 15/23] fix: keep the operator header when an and/or builder is
 reused

---
 programs/asset/types/src/constraints/and.rs | 5 +++++
 programs/asset/types/src/constraints/or.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/programs/asset/types/src/constraints/and.rs b/programs/asset/types/src/constraints/and.rs
index a464422..c54067f 100644
--- a/programs/asset/types/src/constraints/and.rs
+++ b/programs/asset/types/src/constraints/and.rs
@@ -60,6 +60,11 @@ impl Default for AndBuilder {
 impl AndBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        // the builder is left empty after a build
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
+
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
diff --git a/programs/asset/types/src/constraints/or.rs b/programs/asset/types/src/constraints/or.rs
index 483054e..0c6717c 100644
--- a/programs/asset/types/src/constraints/or.rs
+++ b/programs/asset/types/src/constraints/or.rs
@@ -63,6 +63,11 @@ impl Default for OrBuilder {
 impl OrBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        // the builder is left empty after a build
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
+
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
-- 
2.43.0


From 04c107792784cd6d0d99ecabf0586df7b1ee9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:30 +0000
Subject: [PATCH 16/23] fix: place a creator at the end of the builder data

---
 programs/asset/types/src/extensions/creators.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index 236c85c..f663bd9 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -159,9 +159,6 @@ impl ZeroCopy<'_, Creator> for Creator {}
 /// Builder for a `Creators` extension.
 #[derive(Default)]
 pub struct CreatorsBuilder {
-    /// The current number of creators.
-    count: u8,
-
     /// The extension data.
     data: Vec<u8>,
 }
@@ -169,16 +166,12 @@ pub struct CreatorsBuilder {
 impl CreatorsBuilder {
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
-            count: 0,
             data: Vec::with_capacity(capacity),
         }
     }
 
     pub fn with_buffer(buffer: Vec<u8>) -> Self {
-        let mut s = Self {
-            count: 0,
-            data: buffer,
-        };
+        let mut s = Self { data: buffer };
         s.data.clear();
         s
     }
@@ -186,17 +179,15 @@ impl CreatorsBuilder {
     /// Add a new creator to the extension.
     pub fn add(&mut self, addresss: &Pubkey, verified: bool, share: u8) -> &mut Self {
         // extends the data buffer
+        let offset = self.data.len();
         self.data
             .append(&mut vec![0u8; std::mem::size_of::<Creator>()]);
-        let offset = self.count as usize * std::mem::size_of::<Creator>();
 
         let creator = Creator::load_mut(&mut self.data[offset..]);
         creator.address = *addresss;
         creator.verified = verified.into();
         creator.share = share;
 
-        self.count += 1;
-
         self
     }
 }
-- 
2.43.0


From 0a31b670688e5f2d202dc45943c625106fcd8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:30 +0000
Subject: [PATCH 17/23] fix: use the type of the proxy extension in ProxyMut

---
 programs/asset/types/src/extensions/proxy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/proxy.rs b/programs/asset/types/src/extensions/proxy.rs
index abef803..0c46abd 100644
--- a/programs/asset/types/src/extensions/proxy.rs
+++ b/programs/asset/types/src/extensions/proxy.rs
@@ -82,7 +82,7 @@ pub struct ProxyMut<'a> {
 }
 
 impl<'a> ExtensionDataMut<'a> for ProxyMut<'a> {
-    const TYPE: ExtensionType = ExtensionType::Manager;
+    const TYPE: ExtensionType = ExtensionType::Proxy;
 
     fn from_bytes_mut(bytes: &'a mut [u8]) -> Self {
         let (program, remainder) = bytes.split_at_mut(std::mem::size_of::<Pubkey>());
-- 
2.43.0


From 710a20c49679c136da635feb0b168e599c65b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:30 +0000
Subject: [PATCH 18/23] fix: read number properties without an unaligned
 reference

---
 programs/asset/types/src/extensions/properties.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/programs/asset/types/src/extensions/properties.rs b/programs/asset/types/src/extensions/properties.rs
index 3d52fcc..de0c5c7 100644
--- a/programs/asset/types/src/extensions/properties.rs
+++ b/programs/asset/types/src/extensions/properties.rs
@@ -238,14 +238,21 @@ impl Deref for Text<'_> {
 /// A numeric value in a property.
 pub struct Number<'a> {
     pub value: &'a [u8; 8],
+
+    /// Decoded value, since the bytes are not aligned to be accessed as `u64`.
+    number: u64,
 }
 
 impl<'a> Number<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         const START: usize = std::mem::size_of::<Type>();
-        let value = bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u64>()]);
+        let value: &[u8; 8] =
+            bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u64>()]);
 
-        Self { value }
+        Self {
+            value,
+            number: u64::from_le_bytes(*value),
+        }
     }
 }
 
@@ -265,7 +272,7 @@ impl Deref for Number<'_> {
     type Target = u64;
 
     fn deref(&self) -> &Self::Target {
-        unsafe { &*(self.value as *const u8 as *const u64) }
+        &self.number
     }
 }
 
-- 
2.43.0


From c88447de86ed9704df52660072717504429c76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:42 +0000
Subject: [PATCH 19/23] fix: JS client cannot serialize the None delegate role

DelegateRole.None was turned into 1 << -1, a negative number that does not
fit the u8 mask, so serializing the roles read from an empty mask failed.
---
 clients/js/asset/src/hooked/delegateRoles.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/delegateRoles.ts b/clients/js/asset/src/hooked/delegateRoles.ts
index 3d5f4c5..aeb9b5d 100644
--- a/clients/js/asset/src/hooked/delegateRoles.ts
+++ b/clients/js/asset/src/hooked/delegateRoles.ts
@@ -17,7 +17,9 @@ export function getDelegateRolesSerializer(): Serializer<
   return mapSerializer(
     u8(),
     (delegateRoles) =>
-      delegateRoles.map((role) => 1 << (role - 1)).reduce((a, b) => a | b, 0),
+      delegateRoles
+        .map((role) => (role === DelegateRole.None ? 0 : 1 << (role - 1)))
+        .reduce((a, b) => a | b, 0),
     (rolesMask) => {
       if (rolesMask === 0) {
         return [DelegateRole.None];
-- 
2.43.0


From 5cbee844068953a8d34d4e099ba8eea71e66f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:42 +0000
Subject: [PATCH 20/23] fix: JS client cannot read an asset with trailing bytes

An account can be resized to have fewer spare bytes after its last extension
than an extension header takes, which made deserializing the account throw.
---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index bec5559..5655dbf 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -13,6 +13,9 @@ import {
 } from '../generated/types/internalAssetAccountData';
 import { getExtensionHeaderSerializer } from '../generated/types/extensionHeader';
 
+/** Size (in bytes) of an extension header. */
+const EXTENSION_HEADER_SIZE = 16;
+
 export type InternalAssetAccountData = Omit<
   BaseInternalAssetAccountData,
   'delegate'
@@ -56,7 +59,7 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
     const extensions: TypedExtension[] = [];
 
     // Extensions.
-    while (finalOffset < buffer.length) {
+    while (finalOffset + EXTENSION_HEADER_SIZE <= buffer.length) {
       const [header, headerOffset] = getExtensionHeaderSerializer().deserialize(
         buffer,
         finalOffset
-- 
2.43.0


From 1ba6719fef360a517cbb9d9b444dcc5a90de819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:42 +0000
Subject: [PATCH 21/23] fix: JS client cannot read legacy metadata without
 padding

The image uri of metadata created before there was one was read from the
padding of the extension, but there is none when its length is aligned.
---
 .../js/asset/src/hooked/internalAssetAccountData.ts | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index 5655dbf..1728816 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -69,16 +69,15 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
       if (type === ExtensionType.None) {
         break;
       } else if (ExtensionType[type]) {
-        let endOffset = headerOffset + header.length;
+        let data = buffer.subarray(headerOffset, headerOffset + header.length);
         if (type === ExtensionType.Metadata) {
           // backwards compatibility for metadata extension: there is now an 'imageUrl'
-          // on the extension, so we use the extra padding to simulate having it for
-          // assets created before the change.
-          endOffset = header.boundary;
+          // on the extension, so we add an empty string to simulate having it for
+          // assets created before the change (there might be no padding to use).
+          data = new Uint8Array([...data, 0]);
         }
-        const [extension] = getExtensionSerializerFromType(type).deserialize(
-          buffer.subarray(headerOffset, endOffset)
-        );
+        const [extension] =
+          getExtensionSerializerFromType(type).deserialize(data);
         extensions.push({ ...extension, type } as TypedExtension);
       }
 
-- 
2.43.0


From 08bf4bf992b6c96681f6c9500fe68a476e8d1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:42 +0000
Subject: [PATCH 22/23] fix: JS client uploads the buffer of a proxied update
 to the proxy

With a proxy, the buffer of updateWithBuffer was allocated, written and closed
through the proxy program. A proxy only signs for the assets it holds, so these
instructions always failed.
---
 clients/js/asset/src/updateWithBuffer.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index d78ceee..ce9af68 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -32,16 +32,19 @@ export function updateWithBuffer(
   );
   const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
 
+  // only the update goes through the proxy, the buffer is always an account of
+  // the asset program
+  let updateContext = context;
   if (input.proxy) {
     const proxied = context.programs.clone();
     proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
+    updateContext = { ...context, programs: proxied };
   }
 
   if (chunked) {
     const buffer = generateSigner(context);
 
-    let updateIx = update(context, {
+    let updateIx = update(updateContext, {
       ...input,
       buffer: buffer.publicKey,
       systemProgram: SYSTEM_PROGRAM_ID,
@@ -81,7 +84,7 @@ export function updateWithBuffer(
       );
   }
 
-  let updateIx = update(context, {
+  let updateIx = update(updateContext, {
     ...input,
     extension: {
       extensionType: input.extension.type,
-- 
2.43.0


From 25dd96a58dc5e9a86e1305cd1faf2a3b7803a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:03 +0000
Subject: [PATCH 23/23] fix: return an error for a malformed IDL in a program
 binary

Reading the IDL of a binary whose .idl.* sections are out of bounds, truncated
or do not hold a known type and a JSON document panicked, although the parser
returns a Result.
---
 include-idl/src/parse.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include-idl/src/parse.rs b/include-idl/src/parse.rs
index 3c5889d..c3d64dd 100644
--- a/include-idl/src/parse.rs
+++ b/include-idl/src/parse.rs
@@ -70,20 +70,18 @@ pub fn parse_idl_from_program_binary(buffer: &[u8]) -> goblin::error::Result<(Id
 
         match name {
             IDL_DATA_SECTION => {
-                let (location, size) = get_section_data_offset(buffer, sh.sh_offset as usize);
-
-                let slice = &buffer[location..location + size];
+                let slice = get_section_data(buffer, sh.sh_offset as usize)?;
                 let mut compressed_data = ZlibDecoder::new(slice);
                 let mut data = Vec::new();
-                compressed_data.read_to_end(&mut data).unwrap();
+                compressed_data.read_to_end(&mut data)?;
 
-                idl_json = Some(serde_json::from_slice(&data).unwrap());
+                idl_json = Some(serde_json::from_slice(&data).map_err(malformed)?);
             }
             IDL_TYPE_SECTION => {
-                let (location, size) = get_section_data_offset(buffer, sh.sh_offset as usize);
-                let slice = &buffer[location..location + size];
+                let slice = get_section_data(buffer, sh.sh_offset as usize)?;
+                let value = from_utf8(slice).map_err(malformed)?;
 
-                idl_type = Some(IdlType::from_str(from_utf8(slice).unwrap()).unwrap());
+                idl_type = Some(IdlType::from_str(value).map_err(malformed)?);
             }
             // Ignore other sections.
             _ => (),
@@ -101,15 +99,25 @@ pub fn parse_idl_from_program_binary(buffer: &[u8]) -> goblin::error::Result<(Id
     }
 }
 
-/// Retrieves the location and size of an ELF section data.
+/// Retrieves the data an ELF section refers to.
 #[cfg(feature = "parse")]
 #[inline(always)]
-fn get_section_data_offset(buffer: &[u8], offset: usize) -> (usize, usize) {
-    let slice = &buffer[offset + 4..offset + 8];
-    let location = u32::from_le_bytes(slice.try_into().unwrap());
-
-    let slice = &buffer[offset + 8..offset + 16];
-    let size = u64::from_le_bytes(slice.try_into().unwrap());
+fn get_section_data(buffer: &[u8], offset: usize) -> goblin::error::Result<&[u8]> {
+    let section = buffer
+        .get(offset..)
+        .filter(|section| section.len() >= 16)
+        .ok_or_else(|| malformed("Section is out of bounds"))?;
+
+    let location = u32::from_le_bytes(section[4..8].try_into().unwrap()) as usize;
+    let size = u64::from_le_bytes(section[8..16].try_into().unwrap()) as usize;
+
+    buffer
+        .get(location..)
+        .and_then(|data| data.get(..size))
+        .ok_or_else(|| malformed("Section data is out of bounds"))
+}
 
-    (location as usize, size as usize)
+#[cfg(feature = "parse")]
+fn malformed(error: impl std::fmt::Display) -> goblin::error::Error {
+    goblin::error::Error::Malformed(error.to_string())
 }
-- 
2.43.0

