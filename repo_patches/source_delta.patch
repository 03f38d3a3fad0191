From d06e6d3a4669ce4a4db47efb7e6659de11b152d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 01/48] fix: report an entry header without a status instead of
 panicking

---
 src/entry.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..7ebd68e 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,7 +177,17 @@ impl Entry {
         };
 
         // parse status
-        let status = header_tokens[1].parse::<EntryStatus>()?;
+        let status = match header_tokens.get(1) {
+            Some(s) => s.parse::<EntryStatus>()?,
+            None => {
+                return Err(ParseError {
+                    message: Some(
+                        "silverfox requires statuses on entries, but this one has none".to_string(),
+                    ),
+                    context: Some(clean_header.to_string()),
+                });
+            }
+        };
 
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
-- 
2.43.0


From a29b68cd0ed4d286b223a0f6aea258b7e9ed150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 02/48] fix: report a payee's missing closing bracket when one
 stands before it

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 7ebd68e..5b0d877 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -192,7 +192,7 @@ impl Entry {
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            if let Some(j) = description_and_payee.rfind(']').filter(|&j| j > i) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From b3b9b519178d84e25d9d98af699b85e35236e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 03/48] fix: don't panic on an entry whose only posting is
 blank

---
 src/entry.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 5b0d877..4a7905a 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -265,9 +265,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                         unreachable!()
                     }
                 } else {
-                    // shouldn't be reachable, since there'd better be at least one non-blank
-                    // amount
-                    unreachable!()
+                    // no other amounts in this entry, so nothing needs to be balanced
+                    Amount::zero()
                 };
 
                 // subtract the rest of the postings
-- 
2.43.0


From b55eabdbc96e69629940dad7bd255f8e0f845368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 04/48] fix: envelope postings don't take part in inferring a
 blank amount

---
 src/entry.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 4a7905a..f35d06f 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -232,7 +232,7 @@ impl Entry {
                 // if any of the native amounts are None, the calculation fails and this function
                 // returns an error
                 let mut blank_amount = Amount::zero();
-                for posting in &self.postings {
+                for posting in self.postings.iter().filter(|p| p.is_classic()) {
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -252,7 +252,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             } else {
                 // for each posting, subtract that posting's amount from the blank amount (as long as
                 // `posting` doesn't have a blank amount)
-                let mut iter = self.postings.iter();
+                let mut iter = self.postings.iter().filter(|p| p.is_classic());
 
                 // get starting blank amount by finding the first non-blank amount and then
                 // negating it
@@ -382,7 +382,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
         if self.postings.is_empty() {
             false
         } else {
-            let mut iter = self.postings.iter();
+            let mut iter = self.postings.iter().filter(|p| p.is_classic());
             let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
-- 
2.43.0


From bb399bbc78a794ed81317427cfaf830b58912bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 05/48] fix: count a blank amount in the balance if it's an
 account's first posting

---
 src/ledger/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..c1e1253 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -242,12 +242,13 @@ impl Ledger {
                     }
                 } else {
                     // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
+                    // key's value. otherwise, use an AmountPool from the entry's blank Amount.
                     if let Some(a) = posting_amount {
                         totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
                     } else {
+                        let blank_amount = entry.get_blank_amount()?.unwrap_or_else(Amount::zero);
                         totals_map
-                            .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
+                            .insert(posting_account.to_owned(), AmountPool::from(blank_amount));
                     }
                 }
             }
-- 
2.43.0


From 1404d8e894cee595cea03cadce6ae40b59d55d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 06/48] fix: keep envelope postings out of the balance report

---
 src/ledger/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index c1e1253..eba0021 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -223,7 +223,8 @@ impl Ledger {
 
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
-            for posting in entry.get_postings() {
+            // (envelope postings only move money within an account)
+            for posting in entry.get_postings().iter().filter(|p| p.is_classic()) {
                 let posting_amount = posting.get_amount();
                 let posting_account = posting.get_account();
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
-- 
2.43.0


From 9b5123443fceaaaf5ac7d7ef71ad1972163b0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 07/48] fix: keep envelope postings out of the register

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index f35d06f..a0d8b3c 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -432,7 +432,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut negative_names = HashSet::new();
             let mut focused_amount = AmountPool::new();
 
-            for p in &self.postings {
+            for p in self.postings.iter().filter(|p| p.is_classic()) {
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
-- 
2.43.0


From f6658d9b097d0524c1338093b7ed8d0a5ead51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 08/48] fix: trim the whitespace before a comment, too

With it left in, an envelope header with a comment after its due date was
rejected, and an indented comment line in an envelope caused a panic.
---
 src/ledger/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index eba0021..81c0095 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -71,7 +71,7 @@ impl Ledger {
         // split lines
         let lines = s.lines();
         for mut line in lines {
-            line = utils::remove_comments(line.trim_end());
+            line = utils::remove_comments(line).trim_end();
 
             // if the first character of this line is whitespace, it is part of the current chunk.
             // if there is no first character, nothing happens
-- 
2.43.0


From 794a2eb637bd845b9167ee204125d9118bb87df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:57 +0000
Subject: [PATCH 09/48] fix: report an envelope posting in the wrong currency
 instead of panicking

---
 src/envelope.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..1d6ff61 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -607,14 +607,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -628,10 +627,21 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    if amount.symbol != self.amount.symbol {
+                        return Err(ProcessingError::default()
+                            .set_message(&format!(
+                                "the envelope `{}` in `{}` uses a different currency",
+                                self.name, self.account
+                            ))
+                            .set_context(&entry.as_full_string()));
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 6e0da5813714233e3c61a83d0f9f00292b6081b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:57 +0000
Subject: [PATCH 10/48] fix: don't panic when a foreign amount is converted for
 an envelope

---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 1d6ff61..e650a82 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -710,6 +710,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = None;
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
-- 
2.43.0


From 72804a008799dba6bce5bae8377905b4e39d5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 11/48] fix: a refund puts money back into its envelope instead
 of taking more out

---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index e650a82..6dade43 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -732,6 +732,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From a1f6c4ef30e67dbf1b154e2ce67bdeaa38a9b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:20 +0000
Subject: [PATCH 12/48] fix: find the last due date when the month before is
 shorter

The day was carried over as is, which panicked if the previous month lacks it,
and was off if the next due date had been moved to the end of a short month.
---
 src/envelope.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6dade43..77ad64b 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -211,8 +211,14 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
+                Self::Monthly(day) => {
+                    let date = Self::subtract_months(next_date, 1);
+                    Some(Self::with_day_or_last(date, *day))
+                }
+                Self::Bimonthly(d) => {
+                    let date = Self::subtract_months(next_date, 2);
+                    Some(Self::with_day_or_last(date, d.day()))
+                }
                 Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
                 _ => None,
             }
@@ -236,7 +242,8 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        let first_of_month = NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, 1).unwrap();
+        Self::with_day_or_last(first_of_month, date.day())
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
@@ -312,6 +319,12 @@ impl Frequency {
         }
     }
 
+    /// Returns the given day of the date's month, or the last one if the month is too short
+    fn with_day_or_last(date: NaiveDate, day: u32) -> NaiveDate {
+        date.with_day(day)
+            .unwrap_or_else(|| Self::get_last_date_of_month(date))
+    }
+
     /// Returns the last day of the date's month
     fn get_last_date_of_month(date: NaiveDate) -> NaiveDate {
         NaiveDate::from_ymd_opt(date.year(), date.month() + 1, 1)
-- 
2.43.0


From 4b58bc7c88cfef36575907c8e5870636cc2c34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:21 +0000
Subject: [PATCH 13/48] fix: keep yearly envelopes due every year, not just the
 first two

Also, a yearly envelope starting on February 29 doesn't panic anymore.
---
 src/envelope.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 77ad64b..f63ca26 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -219,7 +219,7 @@ impl Frequency {
                     let date = Self::subtract_months(next_date, 2);
                     Some(Self::with_day_or_last(date, d.day()))
                 }
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Annually(d) => Some(Self::in_year(*d, next_date.year() - 1)),
                 _ => None,
             }
         } else {
@@ -313,12 +313,23 @@ impl Frequency {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                    let mut date = *starting_date;
+                    while date <= today {
+                        date = Self::in_year(*starting_date, date.year() + 1);
+                    }
+
+                    Some(date)
                 }
             }
         }
     }
 
+    /// Returns the date's anniversary in the given year; February 28 if the year lacks the 29th
+    fn in_year(date: NaiveDate, year: i32) -> NaiveDate {
+        date.with_year(year)
+            .unwrap_or_else(|| NaiveDate::from_ymd_opt(year, 2, 28).unwrap())
+    }
+
     /// Returns the given day of the date's month, or the last one if the month is too short
     fn with_day_or_last(date: NaiveDate, day: u32) -> NaiveDate {
         date.with_day(day)
-- 
2.43.0


From d014dd4107cb67bf7574ece6b4a8bec4da0921ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:21 +0000
Subject: [PATCH 14/48] fix: don't skip the first due date of an
 every-other-week envelope

---
 src/envelope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index f63ca26..11b4983 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -274,6 +274,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if starting_date > &today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
-- 
2.43.0


From d5e8183e95f62a51978eb04e68be9f0981e19f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:22 +0000
Subject: [PATCH 15/48] fix: an every-other-month envelope due today is next
 due in two months

Like with every other frequency, the next due date comes after today.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 11b4983..e2804a8 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -293,7 +293,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
-- 
2.43.0


From f29c3d4e81d741f0c70dbf31e673bc851b49eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:02 +0000
Subject: [PATCH 16/48] fix: keep to the weekday or day of the month given for
 every other one

`every other 15th starting 2020/01/20` (from the README) was due on the 20th.
---
 src/envelope.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index e2804a8..94d4d86 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -119,7 +119,7 @@ pub enum Frequency {
     Weekly(chrono::Weekday),
     Biweekly(NaiveDate),
     Monthly(u32),
-    Bimonthly(NaiveDate),
+    Bimonthly(NaiveDate, u32),
     // Quarterly(NaiveDate),
     // Semiannually(NaiveDate),
     Annually(NaiveDate),
@@ -142,10 +142,17 @@ impl Frequency {
 
             // parse "every others"
             // remember: the `starting` clause is already trimmed
-            if Self::parse_weekday(what).is_some() {
-                Ok(Self::Biweekly(starting_date.unwrap()))
-            } else if Self::parse_day_of_month(what).is_some() {
-                Ok(Self::Bimonthly(starting_date.unwrap()))
+            // the first due date doesn't need to be the starting date itself
+            let day_before = starting_date.unwrap().pred_opt().unwrap();
+            if let Some(w) = Self::parse_weekday(what) {
+                Ok(Self::Biweekly(
+                    Self::Weekly(w).get_due_date_after(day_before).unwrap(),
+                ))
+            } else if let Some(d) = Self::parse_day_of_month(what) {
+                Ok(Self::Bimonthly(
+                    Self::next_date_by_day_of_month(day_before, d),
+                    d,
+                ))
             } else {
                 Err(ParseError {
                     context: Some(s.to_string()),
@@ -215,9 +222,9 @@ impl Frequency {
                     let date = Self::subtract_months(next_date, 1);
                     Some(Self::with_day_or_last(date, *day))
                 }
-                Self::Bimonthly(d) => {
+                Self::Bimonthly(_, day) => {
                     let date = Self::subtract_months(next_date, 2);
-                    Some(Self::with_day_or_last(date, d.day()))
+                    Some(Self::with_day_or_last(date, *day))
                 }
                 Self::Annually(d) => Some(Self::in_year(*d, next_date.year() - 1)),
                 _ => None,
@@ -249,7 +256,11 @@ impl Frequency {
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let today = Local::now().date_naive();
+        self.get_due_date_after(Local::now().date_naive())
+    }
+
+    /// Calculates and returns the first due date after the given date.
+    fn get_due_date_after(&self, today: NaiveDate) -> Option<NaiveDate> {
         match self {
             Self::Never => None,
             Self::Once(date) => {
@@ -286,12 +297,11 @@ impl Frequency {
             Self::Monthly(day_of_month) => {
                 Some(Self::next_date_by_day_of_month(today, *day_of_month))
             }
-            Self::Bimonthly(starting_date) => {
+            Self::Bimonthly(starting_date, day_of_month) => {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
                     // brute force method until we find something better to do...
-                    let day_of_month = starting_date.day();
                     let mut date = *starting_date;
                     while date <= today {
                         let month0_plus_two = date.month0() + 2;
@@ -300,7 +310,7 @@ impl Frequency {
 
                         // basically create a new date with the month, year and day
                         date = if let Some(x) =
-                            NaiveDate::from_ymd_opt(new_year, new_month, day_of_month)
+                            NaiveDate::from_ymd_opt(new_year, new_month, *day_of_month)
                         {
                             x
                         } else {
-- 
2.43.0


From bdc030fe13eb4367ce4e2bc85bfd01f49a09ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:02 +0000
Subject: [PATCH 17/48] fix: show a due date for an envelope that starts
 between two due dates

The starting date was shown as the due date, even if nothing is due that day.
---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 94d4d86..289417d 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -916,7 +916,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return self.freq.get_next_due_date();
         };
 
-        let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
+        // nothing is due before the starting date
+        let after = Local::now()
+            .date_naive()
+            .max(starting_date.pred_opt().unwrap());
+        let freq_next_date = if let Some(d) = self.freq.get_due_date_after(after) {
             d
         } else {
             return Some(starting_date);
-- 
2.43.0


From 5777aceeda4bc37cd4b2191a26d415287b5397a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:03 +0000
Subject: [PATCH 18/48] fix: money isn't ready in an envelope that hasn't been
 due yet

---
 src/envelope.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 289417d..d05bd0c 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -801,8 +801,12 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             // take from an envelope. always take from the 'now' envelope
             self.now_amount += amount.clone();
         } else if amount.mag > 0.0 {
-            // add to an envelope, depending on the date
-            if let Some(d) = self.freq.get_last_due_date() {
+            // add to an envelope, depending on the date. nothing was due before the starting date
+            let last_due_date = self
+                .freq
+                .get_last_due_date()
+                .filter(|d| self.starting_date.is_none_or(|s| *d >= s));
+            if let Some(d) = last_due_date {
                 if date < d {
                     // anything before the last due date is ready
                     self.now_amount += amount.clone();
-- 
2.43.0


From f2b93ff4d86bc399dc152d3ddda98858b48e65c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:04 +0000
Subject: [PATCH 19/48] fix: don't fill an envelope twice a day when entries
 are out of order

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index d05bd0c..c35686b 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -821,7 +821,10 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        // entries can be out of order, and those in the future haven't affected the envelope yet
+        if date <= Local::now().date_naive() {
+            self.last_transaction_date = self.last_transaction_date.max(date);
+        }
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 9b278dafa4e0074c0772fa0c55907fdc8ae8529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:16 +0000
Subject: [PATCH 20/48] fix: change back to the previous directory after
 reading a file

A file was looked for in the directory of the file included before it, and
with `-f path/to/file` the journal couldn't be opened for appending (or another
file of the same name was appended to).
---
 src/ledger/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 81c0095..32a7ce9 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -58,9 +58,17 @@ impl Ledger {
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
+        let previous_dir = std::env::current_dir();
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
-        self.add_from_str(&s)
+        self.add_from_str(&s)?;
+
+        // and change back, because what follows isn't relative to this file
+        if let Ok(d) = previous_dir {
+            std::env::set_current_dir(d).unwrap_or(());
+        }
+
+        Ok(())
     }
 
     /// Adds to the ledger from the contents parsed from the string
-- 
2.43.0


From e50dd99808539bf5d29f67c6bbaaa1357ce570a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 21/48] fix: report a file that includes itself instead of
 overflowing the stack

---
 src/ledger/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 32a7ce9..68112cc 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -23,6 +23,9 @@ pub struct Ledger {
     accounts: HashMap<String, Account>,
     default_currency: String,
     decimal_symbol: char,
+
+    /// The files being read at the moment, to find out about files that include themselves.
+    open_files: Vec<PathBuf>,
 }
 
 impl Ledger {
@@ -35,6 +38,7 @@ impl Ledger {
             accounts: HashMap::new(),
             default_currency: String::new(),
             decimal_symbol: '.',
+            open_files: Vec::new(),
         }
     }
 
@@ -55,6 +59,16 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
+        let real_path = fs::canonicalize(file_path)
+            .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
+        if self.open_files.contains(&real_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!("`{}` includes itself", file_path.display())),
+                context: None,
+            }));
+        }
+        self.open_files.push(real_path);
+
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
@@ -62,6 +76,7 @@ impl Ledger {
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
         self.add_from_str(&s)?;
+        self.open_files.pop();
 
         // and change back, because what follows isn't relative to this file
         if let Ok(d) = previous_dir {
-- 
2.43.0


From c29f25c6568a8205ce685be538e56d9514aff5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 22/48] fix: don't write entries to the journal that silverfox
 can't read again

An import could leave the journal unreadable (an undefined account such as
expenses:unknown, brackets in a description, an entry that can't be processed),
and an error in one record left the ones before it in the journal, to be
imported a second time.
---
 src/ledger/mod.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 68112cc..2b60b70 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -204,19 +204,26 @@ impl Ledger {
         Ok(())
     }
 
-    /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
-    /// Ledger.
-    fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
+    /// Internally adds the entries to the Ledger, then appends them to the file of the Ledger.
+    fn append_entries(&mut self, entries: &[Entry]) -> Result<(), SilverfoxError> {
+        let text = entries
+            .iter()
+            .map(|e| format!("\n{}", e.as_parsable(&self.date_format)))
+            .collect::<String>();
+
+        // add what's about to be written, so that nothing is written that can't be read again
+        self.add_from_str(&text)?;
+
         let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
             Ok(f) => f,
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
+        if let Err(e) = file.write_all(text.as_bytes()) {
             return Err(SilverfoxError::Basic(format!("{e}")));
         }
 
-        self.add_entry(entry)
+        Ok(())
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
@@ -319,7 +326,7 @@ impl Ledger {
             Some(String::from("automatically generated by silverfox")),
         );
 
-        self.append_entry(entry)
+        self.append_entries(&[entry])
     }
 
     pub fn import_csv(
@@ -335,16 +342,12 @@ impl Ledger {
             CsvImporter::from_file(csv_file, account_set)
         }?;
 
-        for result in imp {
-            match result {
-                Ok(e) => {
-                    self.append_entry(e)?;
-                }
-                Err(e) => return Err(e),
-            }
+        let entries = imp.collect::<Result<Vec<Entry>, SilverfoxError>>()?;
+        if entries.is_empty() {
+            return Ok(());
         }
 
-        Ok(())
+        self.append_entries(&entries)
     }
 
     /// Display a register of all transactions from `begin_date` (inclusive) to `end_date` (also
-- 
2.43.0


From 1372eea06fb743c90fb7cfba438f3d6f4a118ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:18 +0000
Subject: [PATCH 23/48] fix: ignore whitespace at the end of a line in a rules
 file

A comment after a rule made its value end in whitespace, and `decimal_symbol`
followed by nothing but whitespace caused a panic.
---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..ae84eb3 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -143,7 +143,7 @@ impl Rules {
         let mut parsing_subrules_rules = false;
 
         for mut line in s.lines() {
-            line = utils::remove_comments(line);
+            line = utils::remove_comments(line).trim_end();
 
             // if line contains nothing, continue
             if line.trim().is_empty() {
-- 
2.43.0


From a485341b13cc0d362fb0eacbc07e5104fd7f6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:18 +0000
Subject: [PATCH 24/48] fix: don't panic on non-ASCII text in a rules file

---
 src/importer.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index ae84eb3..1f676d5 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -196,9 +196,9 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(pattern))
                     } else {
                         unreachable!()
                     }
@@ -219,9 +219,8 @@ impl Rules {
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
         line = line.trim_start();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
-            i
-        } else {
+        // the first token is the rule name, and the rest of the line is the value
+        let Some((rule_name, rule_value)) = line.split_once(char::is_whitespace) else {
             return Err(SilverfoxError::from(ParseError {
                 message: Some(format!(
                     "this rule has no value. use `-` if you want to discard a value:\n\n{} -",
@@ -231,13 +230,7 @@ impl Rules {
             }));
         };
 
-        // the first token is the rule name
-        let rule_name = &line[..split_index];
-
-        // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
-            .trim_start()
-            .to_string();
+        let rule_value = rule_value.trim_start().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
-- 
2.43.0


From 2a7a664e16a2ff534bea4bfb924d91b17d6260f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:19 +0000
Subject: [PATCH 25/48] fix: don't let a line break in a csv field break up the
 imported entry

---
 src/importer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 1f676d5..33299da 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -387,7 +387,9 @@ impl Rules {
                 }));
             }
 
-            variables.insert(String::from(field_name), String::from(field_value));
+            // line breaks and the like would break the journal
+            let clean_value = field_value.split_whitespace().collect::<Vec<_>>().join(" ");
+            variables.insert(String::from(field_name), clean_value);
         }
 
         // get date
-- 
2.43.0


From dcd72ba4af83a3a79afa671a44a227d741eb5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:19 +0000
Subject: [PATCH 26/48] fix: insert csv fields as they are, even if they
 contain percent signs

A `%name%` in a field was replaced or not depending on hash order, and `%%` in a
field became `%`.
---
 src/importer.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 33299da..cf1aa4f 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -474,13 +474,28 @@ impl Rules {
     }
 
     fn inject_variables(s: &str, variables: &HashMap<String, String>) -> String {
-        let mut result = String::from(s);
-
-        for (v_name, v_value) in variables.iter() {
-            result = result.replace(format!("%{v_name}%").as_str(), v_value);
+        let mut result = String::new();
+        let mut rest = s;
+
+        // go through the text only once, so that values are never taken for variables themselves
+        while let Some(i) = rest.find('%') {
+            result.push_str(&rest[..i]);
+            rest = &rest[i + 1..];
+
+            let name = rest.find('%').map(|j| &rest[..j]);
+            match name.and_then(|n| variables.get(n).map(|v| (n, v))) {
+                Some((n, v)) => {
+                    result.push_str(v);
+                    rest = &rest[n.len() + 1..];
+                }
+                None => {
+                    // literal %, which can be written as %%
+                    result.push('%');
+                    rest = rest.strip_prefix('%').unwrap_or(rest);
+                }
+            }
         }
-
-        result = result.replace("%%", "%"); // literal %
+        result.push_str(rest);
 
         result
     }
-- 
2.43.0


From 2cc8b248e6985a001bf8d56e9e488c0859e62e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:59 +0000
Subject: [PATCH 27/48] fix: print the register's error instead of panicking
 with it

---
 src/flags.rs      | 4 +++-
 src/ledger/mod.rs | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..0c79d7e 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,9 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => {
+                ledger.display_register(self.begin_date, self.end_date, None)?
+            }
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 2b60b70..dd56f10 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -358,7 +358,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -366,7 +366,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From 225394508a6e4db5f27105743c1630f320701977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:00 +0000
Subject: [PATCH 28/48] fix: don't allow an expense and a goal of the same name
 in an account

A posting to one of them was counted for both.
---
 src/account.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index e783319..3cb4a58 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -109,13 +109,11 @@ impl Account {
     }
 
     pub fn add_envelope(&mut self, envelope: Envelope) -> Result<(), ValidationError> {
-        let envelope_collection = match envelope.get_type() {
-            EnvelopeType::Expense => &mut self.expense_envelopes,
-            EnvelopeType::Goal => &mut self.goal_envelopes,
-        };
-
-        let envelope_exists = envelope_collection
+        // envelope postings go by the name alone, so it has to be unique among both types
+        let envelope_exists = self
+            .expense_envelopes
             .iter()
+            .chain(self.goal_envelopes.iter())
             .any(|e| e.get_name() == envelope.get_name());
         if envelope_exists {
             Err(ValidationError {
@@ -127,7 +125,10 @@ impl Account {
                 context: None,
             })
         } else {
-            (*envelope_collection).push(envelope);
+            match envelope.get_type() {
+                EnvelopeType::Expense => self.expense_envelopes.push(envelope),
+                EnvelopeType::Goal => self.goal_envelopes.push(envelope),
+            }
             Ok(())
         }
     }
-- 
2.43.0


From 4f1352b60a0118857e1cce86a541953f24b3f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:01 +0000
Subject: [PATCH 29/48] fix: keep an account's money and envelopes when it's
 defined again

A second definition replaced the first one, along with the balance so far.
---
 src/account.rs    | 10 ++++++++++
 src/ledger/mod.rs |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index 3cb4a58..24ff856 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -133,6 +133,16 @@ impl Account {
         }
     }
 
+    /// Adds the envelopes of another definition of this account.
+    pub fn merge(&mut self, other: Account) -> Result<(), ValidationError> {
+        let envelopes = other.expense_envelopes.into_iter();
+        for envelope in envelopes.chain(other.goal_envelopes) {
+            self.add_envelope(envelope)?;
+        }
+
+        Ok(())
+    }
+
     /// Processes the Entry by looking for any changes to envelope amounts and applying them. Also
     /// adds to the real_value of the Account.
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index dd56f10..8c0d096 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -228,7 +228,11 @@ impl Ledger {
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
         let a = Account::parse(chunk, self.decimal_symbol, &self.date_format)?;
-        self.accounts.insert(a.get_name().to_string(), a);
+        if let Some(existing) = self.accounts.get_mut(a.get_name()) {
+            existing.merge(a)?;
+        } else {
+            self.accounts.insert(a.get_name().to_string(), a);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 17d1def6aae97be2495294c2f210fddfddb12361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:01 +0000
Subject: [PATCH 30/48] fix: reject entries that aren't balanced

As documented, an entry is valid only if the sum of its postings equals zero,
but that was never checked. With mixed currencies or costs, amounts can't be
compared and still aren't.
---
 src/entry.rs   | 20 ++++++++++++++++++++
 src/posting.rs |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index a0d8b3c..9aac973 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -317,6 +317,26 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             return Err(ValidationError::default().set_message("silverfox can't infer the amount of a blank posting when other postings have mixed currencies").set_context(context));
         }
 
+        // if all amounts are known and of the same currency, they need to add up to zero
+        let amounts = self
+            .postings
+            .iter()
+            .filter(|p| p.is_classic())
+            .filter_map(|p| p.get_amount())
+            .map(|a| a.mag)
+            .collect::<Vec<f64>>();
+        let has_cost_assertion = self.postings.iter().any(|p| p.has_cost_assertion());
+        if blank_amounts == 0 && !has_cost_assertion && !self.has_mixed_currencies() {
+            // allow for the inaccuracy of floating-point numbers
+            let largest = amounts.iter().fold(0.0, |max: f64, a| max.max(a.abs()));
+            let tolerance = f64::max(0.000_000_005, largest * 1e-12);
+            if amounts.iter().sum::<f64>().abs() > tolerance {
+                return Err(ValidationError::default()
+                    .set_message("this entry isn't balanced; its amounts don't add up to zero")
+                    .set_context(context));
+            }
+        }
+
         Ok(())
     }
 
diff --git a/src/posting.rs b/src/posting.rs
index 86ec071..e61df77 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -177,6 +177,10 @@ impl Posting {
         format!("{self}")
     }
 
+    pub fn has_cost_assertion(&self) -> bool {
+        matches!(self, Self::Classic(c) if c.cost_assertion.is_some())
+    }
+
     pub fn is_envelope(&self) -> bool {
         matches!(self, Self::Envelope(_))
     }
-- 
2.43.0


From 9ad3a5109c77d51d32aeebaa25beb3c4271516a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 31/48] fix: check balance assertions

They were parsed, but never compared with the balance of the account.
---
 src/account.rs | 35 +++++++++++++++++++++++++++++++++++
 src/posting.rs |  8 ++++++++
 2 files changed, 43 insertions(+)

diff --git a/src/account.rs b/src/account.rs
index 24ff856..3ec9ecd 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -168,12 +168,47 @@ impl Account {
                         Err(e) => return Err(e),
                     }
                 }
+
+                self.check_balance_assertion(posting, entry)?;
             }
         }
 
         Ok(())
     }
 
+    /// Makes sure that the account has the balance that's asserted by a posting just processed.
+    fn check_balance_assertion(
+        &self,
+        posting: &Posting,
+        entry: &Entry,
+    ) -> Result<(), ProcessingError> {
+        let Some(asserted) = posting.get_balance_assertion() else {
+            return Ok(());
+        };
+
+        // the currency is the one of the posting unless the assertion has its own
+        let symbol = match (&asserted.symbol, posting.get_amount()) {
+            (Some(s), _) => Some(s.clone()),
+            (None, Some(a)) => a.symbol.clone(),
+            (None, None) => entry.get_blank_amount()?.and_then(|a| a.symbol),
+        };
+
+        // allow for the inaccuracy of floating-point numbers
+        let actual = self.real_value.only(&symbol);
+        let posted = posting.get_amount().map_or(0.0, |a| a.mag.abs());
+        let tolerance = f64::max(0.000_000_005, asserted.mag.abs().max(posted) * 1e-12);
+        if (actual.mag - asserted.mag).abs() > tolerance {
+            return Err(ProcessingError::default()
+                .set_message(&format!(
+                    "the balance of `{}` was asserted to be {}, but it's {}",
+                    self.name, asserted, actual
+                ))
+                .set_context(&entry.as_full_string()));
+        }
+
+        Ok(())
+    }
+
     pub fn display_envelopes(&self) {
         // if no envelopes to display, quit
         if self.expense_envelopes.is_empty() && self.goal_envelopes.is_empty() {
diff --git a/src/posting.rs b/src/posting.rs
index e61df77..0b3b187 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -177,6 +177,14 @@ impl Posting {
         format!("{self}")
     }
 
+    /// Returns the balance the Posting's account is asserted to have after it
+    pub fn get_balance_assertion(&self) -> Option<&Amount> {
+        match self {
+            Self::Envelope(_) => None,
+            Self::Classic(c) => c.balance_assertion.as_ref(),
+        }
+    }
+
     pub fn has_cost_assertion(&self) -> bool {
         matches!(self, Self::Classic(c) if c.cost_assertion.is_some())
     }
-- 
2.43.0


From 6445c698b8a7dc77cc273ec696272b0c874161a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:44 +0000
Subject: [PATCH 32/48] fix: don't list entries in the register that change
 nothing

Postings of 0.1, 0.2 and -0.3 to asset accounts add up to 5.6e-17 in floating-point
numbers, so the register listed them with a change of 0.
---
 src/amount.rs | 8 +++++++-
 src/entry.rs  | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index bba4973..114edc3 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -75,6 +75,12 @@ impl Amount {
         !is_mag_char(c, decimal_symbol) && c != '.' && c != ','
     }
 
+    /// Returns true if the amount is zero to eight decimal places, which is what floating-point
+    /// numbers can leave over when they should add up to zero.
+    pub fn is_zero(&self) -> bool {
+        self.rounded_mag() == 0.0
+    }
+
     fn rounded_mag(&self) -> f64 {
         (self.mag * 100_000_000.0).round() / 100_000_000.0
     }
@@ -374,7 +380,7 @@ impl AmountPool {
         }
 
         for amt in &self.pool {
-            if amt.mag != 0.0 {
+            if !amt.is_zero() {
                 return false;
             }
         }
diff --git a/src/entry.rs b/src/entry.rs
index 9aac973..20bccc2 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -460,7 +460,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                     self.get_blank_amount()?.unwrap()
                 };
 
-                if amount.mag > 0.0 {
+                if amount.is_zero() {
+                    // no money comes from here or goes here
+                } else if amount.mag > 0.0 {
                     positive_names.insert(name);
                 } else if amount.mag < 0.0 {
                     negative_names.insert(name);
-- 
2.43.0


From 79d047f4f80928b406370ed0d3c6729275585fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:44 +0000
Subject: [PATCH 33/48] fix: don't write an automatic movement of zero

When an envelope of 0.8 was filled with 0.7 and 0.1, floating-point numbers say that 1.1e-16
is missing, and a movement of 0 was written to the journal every day.
---
 src/ledger/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 8c0d096..e99c5aa 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -310,7 +310,7 @@ impl Ledger {
         // remove zero-magnitude postings, they're useless
         postings.retain(|p| {
             if let Some(a) = p.get_amount() {
-                a.mag != 0.0
+                !a.is_zero()
             } else {
                 false
             }
-- 
2.43.0


From 5d4ab5bc063909f3bc808801e5838733df31ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:54 +0000
Subject: [PATCH 34/48] fix: an entry that moves nothing in the end doesn't
 touch an envelope

With postings that only add up to zero but for the inaccuracy of floating-point numbers,
the envelope counted as moved on that day, and wasn't filled.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index c35686b..ece825a 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -774,7 +774,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-        if abs_min_mag != 0.0 {
+        if !auto_postings_sum.is_zero() && !self_account_postings_sum.is_zero() {
             // if the self_account_postings_sum is less than zero, then the amount we apply should be
             // negative
             let mag_to_apply = if self_account_postings_sum.mag < 0.0 {
-- 
2.43.0


From 0b87ed37dff24fa3ce87bad215832f4d79eebae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:49 +0000
Subject: [PATCH 35/48] fix: don't overdraw an account to make up for an
 overspent envelope

The limit to the available amount came before the amount was raised to cover what was
overspent, so silverfox moved money that the account didn't have.
---
 src/envelope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index ece825a..9540764 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -866,9 +866,9 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     let mag = self
                         .amount
                         .mag
-                        .min(account_available_amount.mag) // makes sure the account value stays positive :)
                         .min(remaining_amount.mag) // prevents envelope overflow
                         .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
+                        .min(account_available_amount.mag) // makes sure the account value stays positive :)
                         .max(0.0); // never take money from an envelope
 
                     Amount {
@@ -881,9 +881,9 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     let date_diff = next_due_date.signed_duration_since(today);
                     let days_remaining = date_diff.num_days();
                     let mag = (remaining_amount.mag / days_remaining as f64)
-                        .min(account_available_amount.mag) // makes sure the account value stays positive
                         .min(remaining_amount.mag) // prevents envelope overflow
                         .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
+                        .min(account_available_amount.mag) // makes sure the account value stays positive
                         .max(0.0); // never take money from an envelope
 
                     // return that
-- 
2.43.0


From c496ba9fb2b17ff4a508c8e4c0f43c85ef5321bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:04 +0000
Subject: [PATCH 36/48] fix: reject envelope postings for undeclared accounts

---
 src/posting.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/posting.rs b/src/posting.rs
index 0b3b187..a98e89d 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -29,7 +29,7 @@ impl EnvelopePosting {
     pub fn parse(
         line: &str,
         decimal_symbol: char,
-        _accounts: &HashSet<&String>,
+        accounts: &HashSet<&String>,
     ) -> Result<Self, ParseError> {
         let mut tokens = line.split_whitespace().skip(1);
 
@@ -42,6 +42,15 @@ impl EnvelopePosting {
             });
         };
 
+        if !accounts.contains(&account_name) {
+            return Err(ParseError {
+                message: Some(format!(
+                    "the account `{account_name}` is not defined in your journal"
+                )),
+                context: Some(line.to_string()),
+            });
+        }
+
         let envelope_name = if let Some(e) = tokens.next() {
             String::from(e)
         } else {
-- 
2.43.0


From 7892d95728d23b6c3bd9f3d7ed487ff8c50cd729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 37/48] fix: don't panic over arguments and paths that aren't
 unicode

---
 src/flags.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 0c79d7e..cbd734f 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -2,6 +2,7 @@ use crate::errors::SilverfoxError;
 use crate::ledger::Ledger;
 use std::convert::TryFrom;
 use std::env;
+use std::ffi::OsString;
 use std::path::PathBuf;
 
 pub struct CommandFlags {
@@ -19,11 +20,11 @@ pub struct CommandFlags {
 
 impl CommandFlags {
     pub fn parse_from_env() -> Result<Self, SilverfoxError> {
-        let mut args = env::args();
+        let mut args = env::args_os();
 
         // parse subcommand
         let subcommand = if let Some(a) = args.nth(1) {
-            Subcommand::try_from(a.as_str())?
+            Subcommand::try_from(a.to_string_lossy().as_ref())?
         } else {
             display_help();
             std::process::exit(0);
@@ -41,15 +42,17 @@ impl CommandFlags {
         };
 
         while let Some(arg) = args.next() {
+            let arg = arg.to_string_lossy();
+
             // match boolean flags first
-            match arg.as_str() {
+            match arg.as_ref() {
                 "--no-move" | "-n" => {
                     flags.no_move = true;
                 }
                 _ => {
                     // then flags that require arguments
                     let arg_value = parse_argument_value(args.next(), &arg)?;
-                    match arg.as_str() {
+                    match arg.as_ref() {
                         "-f" | "--file" => {
                             flags.file_path = Some(PathBuf::from(arg_value));
                         }
@@ -182,7 +185,7 @@ fn display_help() {
     // println!("    silverfox b --help")
 }
 
-fn parse_argument_value(arg: Option<String>, name: &str) -> Result<String, SilverfoxError> {
+fn parse_argument_value(arg: Option<OsString>, name: &str) -> Result<OsString, SilverfoxError> {
     if let Some(a) = arg {
         Ok(a)
     } else {
@@ -193,9 +196,9 @@ fn parse_argument_value(arg: Option<String>, name: &str) -> Result<String, Silve
 }
 
 fn get_file_from_env() -> Option<PathBuf> {
-    if let Ok(v) = env::var("SILVERFOX_FILE") {
+    if let Some(v) = env::var_os("SILVERFOX_FILE") {
         Some(PathBuf::from(v))
-    } else if let Ok(v) = env::var("LEDGER_FILE") {
+    } else if let Some(v) = env::var_os("LEDGER_FILE") {
         Some(PathBuf::from(v))
     } else {
         None
-- 
2.43.0


From b5b56ed590126eada3fce34b0bff0ae0ab068b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:10 +0000
Subject: [PATCH 38/48] fix: end with an error when files are included too
 deeply

---
 src/importer.rs   | 20 +++++++++++++++++++-
 src/ledger/mod.rs |  6 ++++++
 src/utils.rs      |  3 +++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index cf1aa4f..7a695d1 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -96,6 +96,9 @@ struct Rules {
     skip: i32,
     status: String,
     subrules: Vec<Subrules>,
+
+    /// How many files that include each other are being read at the moment.
+    include_depth: usize,
 }
 
 impl Default for Rules {
@@ -116,6 +119,7 @@ impl Default for Rules {
             skip: 1,
             status: String::from("~"),
             subrules: Default::default(),
+            include_depth: 0,
         }
     }
 }
@@ -134,7 +138,21 @@ impl Rules {
         let s = fs::read_to_string(rules_file)
             .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
 
-        self.add_from_str(&s)
+        if self.include_depth == utils::MAX_INCLUDE_DEPTH {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!(
+                    "`{}` is included too deeply. does it include itself?",
+                    rules_file.display()
+                )),
+                context: None,
+            }));
+        }
+
+        self.include_depth += 1;
+        self.add_from_str(&s)?;
+        self.include_depth -= 1;
+
+        Ok(())
     }
 
     fn add_from_str(&mut self, s: &str) -> Result<(), SilverfoxError> {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index e99c5aa..8dd10f0 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -67,6 +67,12 @@ impl Ledger {
                 context: None,
             }));
         }
+        if self.open_files.len() > utils::MAX_INCLUDE_DEPTH {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!("`{}` is included too deeply", file_path.display())),
+                context: None,
+            }));
+        }
         self.open_files.push(real_path);
 
         // change directory to parent after reading to string, and before parsing
diff --git a/src/utils.rs b/src/utils.rs
index 9e369a7..0f793f2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,6 @@
+/// How deeply included files may include other files.
+pub const MAX_INCLUDE_DEPTH: usize = 256;
+
 pub fn remove_comments(s: &str) -> &str {
     // get indices
     let double_slash_index = s.find("//");
-- 
2.43.0


From 1cfe8eab834b9ce1a61dca27a3a625ecde73cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:42 +0000
Subject: [PATCH 39/48] fix: reject date formats that dates can't be written in

---
 src/ledger/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 8dd10f0..99ef4db 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -161,6 +161,15 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // dates don't only have to be read in this format, but to be written, too
+            use std::fmt::Write;
+            if write!(String::new(), "{}", NaiveDate::default().format(d)).is_err() {
+                return Err(SilverfoxError::from(ParseError {
+                    context: Some(d.to_string()),
+                    message: Some("dates can't be written in this date format".to_string()),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From 9c8f524e3678eb9332ce340871a31fdcc1ae0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 40/48] fix: don't copy all earlier conditional rules into each
 of them

---
 src/importer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 7a695d1..dc06547 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -535,9 +535,13 @@ impl Subrules {
 
 impl From<&Rules> for Subrules {
     fn from(other: &Rules) -> Self {
+        // (copying earlier subrules, too, would double their number with each of them)
+        let mut rules = other.clone();
+        rules.subrules.clear();
+
         Self {
             patterns: Default::default(),
-            rules: other.clone(),
+            rules,
         }
     }
 }
-- 
2.43.0


From 281e570e3d80851beb382d9ab101e5311ac9e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:11 +0000
Subject: [PATCH 41/48] fix: what is left after moving money to envelopes is
 what is left after rounding

Amounts are written with eight decimal places, but were deducted unrounded from
the account's available value. What rounding left over was moved to yet another
envelope by the next run of the same day.
---
 src/amount.rs   | 8 ++++++++
 src/envelope.rs | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/amount.rs b/src/amount.rs
index 114edc3..b829eb8 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -81,6 +81,14 @@ impl Amount {
         self.rounded_mag() == 0.0
     }
 
+    /// Returns the amount as it's written, which is with no more than eight decimal places.
+    pub fn rounded(&self) -> Self {
+        Self {
+            mag: self.rounded_mag(),
+            symbol: self.symbol.clone(),
+        }
+    }
+
     fn rounded_mag(&self) -> f64 {
         (self.mag * 100_000_000.0).round() / 100_000_000.0
     }
diff --git a/src/envelope.rs b/src/envelope.rs
index 9540764..2ff7b80 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -899,7 +899,10 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     /// Returns a posting with this Envelope's fill amount for the day. `account` is passed so that
     /// the program can determine how much money we have available.
     pub fn get_filling_posting(&self, account_available_value: &AmountPool) -> EnvelopePosting {
-        let amount = self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+        // (rounded, so that what's left for other envelopes is what's left after writing it)
+        let amount = self
+            .get_filling_amount(&account_available_value.only(&self.amount.symbol))
+            .rounded();
 
         EnvelopePosting::new(self.account.clone(), amount, self.name.clone())
     }
-- 
2.43.0


From 0cc9b354c1f203506629ceb0b00ffd40cf5d1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:45 +0000
Subject: [PATCH 42/48] fix: don't crash when the register has to align very
 long texts

---
 src/ledger/register.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ledger/register.rs b/src/ledger/register.rs
index ef8848e..11e654e 100644
--- a/src/ledger/register.rs
+++ b/src/ledger/register.rs
@@ -1,6 +1,9 @@
 use crate::{amount::AmountPool, entry::Entry, entry::EntryRegisterData, errors::SilverfoxError};
 use chrono::NaiveDate;
 
+/// The widest padding there can be when formatting.
+const MAX_PADDING: usize = u16::MAX as usize;
+
 pub struct Register;
 
 impl Register {
@@ -167,10 +170,10 @@ fn print_lines(maximums: &MaximumLens, register_data: &[EntryRegisterData], _con
                 rd.description,
                 rd.account_flow.0,
                 rd.account_flow.1,
-                date_len = maximums.date,
-                description_len = maximums.description,
-                from_acct_len = maximums.long_from_account,
-                to_acct_len = maximums.long_to_account,
+                date_len = maximums.date.min(MAX_PADDING),
+                description_len = maximums.description.min(MAX_PADDING),
+                from_acct_len = maximums.long_from_account.min(MAX_PADDING),
+                to_acct_len = maximums.long_to_account.min(MAX_PADDING),
             );
 
             // TODO: Have Amount::display handle formatting arguments
@@ -179,8 +182,8 @@ fn print_lines(maximums: &MaximumLens, register_data: &[EntryRegisterData], _con
                 "{:>amount_len$}  {:>running_total_len$}",
                 format!("{}", first_amount),
                 format!("{}", running_total.only(&first_amount.symbol)),
-                amount_len = maximums.amount,
-                running_total_len = maximums.running_total,
+                amount_len = maximums.amount.min(MAX_PADDING),
+                running_total_len = maximums.running_total.min(MAX_PADDING),
             );
 
             let prelude_space = spaces(prelude.len());
@@ -190,8 +193,8 @@ fn print_lines(maximums: &MaximumLens, register_data: &[EntryRegisterData], _con
                     prelude_space,
                     format!("{}", amount),
                     format!("{}", running_total.only(&amount.symbol)),
-                    amount_len = maximums.amount,
-                    running_total_len = maximums.running_total,
+                    amount_len = maximums.amount.min(MAX_PADDING),
+                    running_total_len = maximums.running_total.min(MAX_PADDING),
                 );
             }
         }
-- 
2.43.0


From e7f546192b122934b80ff00924c2aaa8c6bc4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:36 +0000
Subject: [PATCH 43/48] fix: go by one date during a whole run, even if
 midnight passes

---
 src/envelope.rs   | 12 +++++-------
 src/ledger/mod.rs |  4 ++--
 src/utils.rs      |  9 +++++++++
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 2ff7b80..fd61621 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -4,8 +4,8 @@ use crate::errors::ParseError;
 use crate::errors::ProcessingError;
 use crate::posting::{EnvelopePosting, Posting};
 use crate::utils;
+use chrono::NaiveDate;
 use chrono::prelude::*;
-use chrono::{Local, NaiveDate};
 use std::cmp::Ordering;
 use std::collections::HashSet;
 use std::fmt;
@@ -256,7 +256,7 @@ impl Frequency {
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
-        self.get_due_date_after(Local::now().date_naive())
+        self.get_due_date_after(utils::today())
     }
 
     /// Calculates and returns the first due date after the given date.
@@ -822,7 +822,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         }
 
         // entries can be out of order, and those in the future haven't affected the envelope yet
-        if date <= Local::now().date_naive() {
+        if date <= utils::today() {
             self.last_transaction_date = self.last_transaction_date.max(date);
         }
     }
@@ -851,7 +851,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return zero_amount;
         };
 
-        let today = Local::now().date_naive();
+        let today = utils::today();
         let remaining_amount = self.get_remaining_next_amount();
 
         if self.last_transaction_date == today {
@@ -927,9 +927,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         };
 
         // nothing is due before the starting date
-        let after = Local::now()
-            .date_naive()
-            .max(starting_date.pred_opt().unwrap());
+        let after = utils::today().max(starting_date.pred_opt().unwrap());
         let freq_next_date = if let Some(d) = self.freq.get_due_date_after(after) {
             d
         } else {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 99ef4db..723480d 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -5,7 +5,7 @@ use crate::errors::*;
 use crate::importer::CsvImporter;
 use crate::posting::Posting;
 use crate::utils;
-use chrono::{Local, NaiveDate};
+use chrono::NaiveDate;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fmt::Formatter;
@@ -337,7 +337,7 @@ impl Ledger {
         }
 
         let entry = Entry::new(
-            Local::now().date_naive(),
+            utils::today(),
             crate::entry::EntryStatus::Cleared,
             String::from("move to envelopes"),
             None,
diff --git a/src/utils.rs b/src/utils.rs
index 0f793f2..68b77e3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,15 @@
+use chrono::{Local, NaiveDate};
+use std::sync::OnceLock;
+
 /// How deeply included files may include other files.
 pub const MAX_INCLUDE_DEPTH: usize = 256;
 
+/// Returns today's date, which stays the same for the whole run even if midnight passes meanwhile.
+pub fn today() -> NaiveDate {
+    static TODAY: OnceLock<NaiveDate> = OnceLock::new();
+    *TODAY.get_or_init(|| Local::now().date_naive())
+}
+
 pub fn remove_comments(s: &str) -> &str {
     // get indices
     let double_slash_index = s.find("//");
-- 
2.43.0


From 7edc2e0ebf1f8d7a0259e8a694357da3899e6111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:19 +0000
Subject: [PATCH 44/48] fix: don't measure balance assertions by amounts of
 other currencies

---
 src/account.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index 3ec9ecd..9460490 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -195,7 +195,10 @@ impl Account {
 
         // allow for the inaccuracy of floating-point numbers
         let actual = self.real_value.only(&symbol);
-        let posted = posting.get_amount().map_or(0.0, |a| a.mag.abs());
+        let posted = posting
+            .get_amount()
+            .filter(|a| a.symbol == symbol)
+            .map_or(0.0, |a| a.mag.abs());
         let tolerance = f64::max(0.000_000_005, asserted.mag.abs().max(posted) * 1e-12);
         if (actual.mag - asserted.mag).abs() > tolerance {
             return Err(ProcessingError::default()
-- 
2.43.0


From b12fca7f1b634907a7a71ba98adb22a18158c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:21 +0000
Subject: [PATCH 45/48] fix: find the rules beside a csv file whose path isn't
 valid unicode

---
 src/importer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index dc06547..0f30e24 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -24,7 +24,10 @@ impl CsvImporter {
     }
 
     fn get_sibling_rules_path(original: &Path) -> PathBuf {
-        PathBuf::from(format!("{}.rules", original.display()))
+        // (not every path can be displayed)
+        let mut rules_path = original.as_os_str().to_owned();
+        rules_path.push(".rules");
+        PathBuf::from(rules_path)
     }
 
     pub fn from_file_with_rules(
-- 
2.43.0


From f455d26a6f3b44ce3174769161cad6d99660218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:04 +0000
Subject: [PATCH 46/48] fix: let envelopes be named by the words of their own
 header

---
 src/envelope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index fd61621..5173348 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -448,6 +448,10 @@ impl Envelope {
 
         let envelope_type = EnvelopeType::from_str(tokens[0])?;
 
+        // the clauses come after the name, which may be one of their words itself
+        header = header.trim_start()[tokens[0].len()..].trim_start();
+        header = &header[tokens[1].len()..];
+
         // parse `starting` clause
         let (starting_date, starting_idx) =
             Self::extract_starting(header, date_format).map(|o| {
-- 
2.43.0


From 03ae632c5f87fcaeb3abf51bc1a99a94afcbbaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:07 +0000
Subject: [PATCH 47/48] fix: let any whitespace separate the words of an
 envelope definition

---
 src/envelope.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 5173348..7020234 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -431,7 +431,7 @@ impl Envelope {
     /// Returns the starting struct of an Envelope. The string passed in can include ledger
     /// comments.
     fn from_header(
-        mut header: &str,
+        header: &str,
         date_format: &str,
         account_name: &str,
     ) -> Result<Self, ParseError> {
@@ -448,9 +448,10 @@ impl Envelope {
 
         let envelope_type = EnvelopeType::from_str(tokens[0])?;
 
-        // the clauses come after the name, which may be one of their words itself
-        header = header.trim_start()[tokens[0].len()..].trim_start();
-        header = &header[tokens[1].len()..];
+        // the clauses come after the name, which may be one of their words itself (and it doesn't
+        // matter how much whitespace is between their words)
+        let clauses = format!(" {}", tokens[2..].join(" "));
+        let mut header = clauses.as_str();
 
         // parse `starting` clause
         let (starting_date, starting_idx) =
@@ -498,7 +499,7 @@ impl Envelope {
 
             // get the index of the first space (because that's where the values begins)
 
-            let Some(idx) = trimmed_line.find(' ') else {
+            let Some(idx) = trimmed_line.find(char::is_whitespace) else {
                 let message = format!(
                     "the property `{}` to an envelope (`{}` in {}) is blank",
                     line_split[0], self.name, account_name
-- 
2.43.0


From 350c09de065c0c7c3fca51af905bac9d51a54e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:07 +0000
Subject: [PATCH 48/48] fix: ignore the whitespace before the pattern of a
 conditional import rule

---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 0f30e24..b8b1923 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -219,7 +219,7 @@ impl Rules {
                 parsing_subrules = Some(Subrules::from(&*self));
                 if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(pattern))
+                        s.patterns.push(String::from(pattern.trim_start()))
                     } else {
                         unreachable!()
                     }
-- 
2.43.0

