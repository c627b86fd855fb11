From 7251a024f7be6e21a9389294efa80cdf92283e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 01/87] fix: opening balance grew last year's balance and flows
 at the new year's rate instead of last year's

---
 forecaster/accounts/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..b184916 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -227,12 +227,17 @@ class Account(TaxSource):
         # This method isn't hidden in __init__; it's assigned to (by a
         # setter defined via metaclass)
 
+        # Growth over last year is at last year's rate (not this year's):
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added by metaclass.
+        rate = self._rate_history[self.this_year - 1]
+
         # First, grow last year's initial balance based on the rate:
         balance = value_at_time(
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass.
             self._balance_history[self.this_year - 1],
-            self.rate, 'start', 'end', nper=self.nper,
+            rate, 'start', 'end', nper=self.nper,
             high_precision=self.high_precision)
 
         # Then, grow each transactions and add it to the year-end total.
@@ -243,7 +248,7 @@ class Account(TaxSource):
         transactions_history = self._transactions_history
         for when, value in transactions_history[self.this_year - 1].items():
             balance += value_at_time(
-                value, self.rate, when, 'end', nper=self.nper,
+                value, rate, when, 'end', nper=self.nper,
                 high_precision=self.high_precision)
 
         return balance
-- 
2.43.0


From 43ba7206f1c3d69931cb31482182e3222a5e5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 02/87] fix: Account.get raised TypeError (dict.get takes no
 keyword) and returned nothing

---
 forecaster/accounts/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index b184916..7c16720 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -882,7 +882,7 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        return self._transactions.get(key, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From b8db5c165994e3883ee5082815398eb45d6d3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 03/87] fix: assigning, reading or deleting an account's
 transactions by a named time ('start'/'end') missed the recorded time, so
 assignment accumulated

---
 forecaster/accounts/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 7c16720..60e678c 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -858,15 +858,18 @@ class Account(TaxSource):
         return when in self._transactions
 
     def __getitem__(self, key):
-        return self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions[when]
 
     def __setitem__(self, key, value):
-        if key in self._transactions:
-            del self._transactions[key]
-        self.add_transaction(value=value, when=key)
+        when = when_conv(key, high_precision=self.high_precision)
+        if when in self._transactions:
+            del self._transactions[when]
+        self.add_transaction(value=value, when=when)
 
     def __delitem__(self, key):
-        del self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        del self._transactions[when]
 
     def keys(self):
         """ The timings of the account's transactions. """
@@ -882,7 +885,8 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        return self._transactions.get(key, default)
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions.get(when, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From c05ef0a0338c199144757eef6fe1a0e4e6a3f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 04/87] fix: Timing given by a frequency code in high-precision
 mode had low-precision times

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..ea25303 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,6 +79,8 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
+                if high_precision is not None:
+                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
             frequency = frequency_conv(frequency)
-- 
2.43.0


From 13ba8f4963abb7fad624cccc5c20d43f1555453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 05/87] fix: setting a linked account's outflow limits changed
 its inflow limits instead

---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From 2122018b2fb0287ef337ded6cdb39a5dcbbae9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 06/87] fix: offers of linked accounts applied other accounts'
 flows to this account's own balance and let simultaneous flows of different
 accounts cancel

---
 forecaster/accounts/linked_limit.py | 180 +++++++++++++++++-----------
 1 file changed, 109 insertions(+), 71 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index e5b9b0a..8a14a35 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -1,9 +1,7 @@
 """ A module providing the LinkedLimitAccount class. """
 
-from copy import copy
 from forecaster.accounts.base import Account
 from forecaster.accounts.link import AccountLink
-from forecaster.utility import add_transactions
 
 class LinkedLimitAccount(Account):
     """ An account with inflow/outflow limits linked to other accounts.
@@ -195,70 +193,63 @@ class LinkedLimitAccount(Account):
             link.data = limit
         return link
 
-    def _merge_transactions(self, transactions, group_transactions, link):
-        """ Merges `group_transactions` and `transactions`.
+    def _own_transactions(self, transactions, group_transactions):
+        """ The hypothetical transactions that apply to this account.
 
-        Only linked accounts have their transactions in
-        `group_transactions` added to `transactions`. Any keys in
-        `group_transactions` which are not linked (per `link`) are
-        ignored.
+        Args:
+            transactions
+                (Union[dict[Number, Money], NoneType]): A time-series of
+                transactions for this account. If provided, any
+                transactions for this account in `group_transactions`
+                are ignored. May be `None`.
+            group_transactions
+                (Union[dict[Account, dict[Number, Money]], NoneType]):
+                A mapping of `Account` keys to `transactions`-like
+                values. May be `None`.
 
-        If `transactions` is provided, any transactions for this account
-        in `group_transactions` are ignored.
+        Returns:
+            Union[dict[Number, Money], NoneType]: The transactions, if
+            any.
+        """
+        if transactions is None and group_transactions is not None:
+            return group_transactions.get(self, None)
+        return transactions
+
+    def _group_flows(self, link, flows, group_transactions):
+        """ The total flows of all other accounts linked to this one.
+
+        Each account's flows are summed separately, so simultaneous
+        inflows and outflows of different accounts don't offset.
 
         Args:
-            transactions (Union[dict[Number, Money], NoneType]): A
-                time-series of transactions for this account.
-                May be `None`.
+            link (AccountLink): An object defining a collection of
+                linked accounts.
+            flows (Callable): A method which returns an account's total
+                inflows or outflows (e.g. `Account.inflows`).
             group_transactions
                 (Union[dict[Account, dict[Number, Money]], NoneType]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Keys not linked (according to `link`) are
-                ignored.
-            link (AccountLink): An object defining a collection of
-                linked accounts.
+                ignored. May be `None`.
 
         Returns:
-            dict[Number, Money]: A time-series of transactions formed
-            by merging `transactions` (if provided) with the
-            transactions mapped by any accounts of `group_transactions`
-            (if provided) which are linked to this account.
+            Money: The sum of flows (as determined by `flows`) recorded
+            against the other linked accounts or provided for them by
+            `group_transactions`.
         """
-        # For convenience, use an empty iterable rather than `None`:
-        if group_transactions is None:
-            group_transactions = set()
-
-        # We want to return `transactions`, but we don't want to mutate
-        # any of the inputs, so copy it first:
-        if transactions is not None:
-            transactions = copy(transactions)
-        elif self in group_transactions:
-            # If `transactions` isn't given, but this account is
-            # represented in `group_transactions`, use that:
-            transactions = copy(group_transactions[self])
-        else:
-            # Otherwise, just start with a empty dict to fill later:
-            transactions = {}
-
-        # If this account isn't linked (for this type of inflow/outflow,
-        # anyways), we're done:
+        total = self.precision_convert(0) # Money value
+        # If this account isn't linked there are no other accounts:
         if link is None:
-            return transactions
-
-        # Otherwise, merge the transactions for each other linked
-        # account in the group (note that this account is handled above)
-        group = link.group - {self}
-        for account in group:
-            # Add the transactions already recorded against the account:
-            add_transactions(transactions, account.transactions)
-            # And add any additional transactions, if present in
-            # `group_transactions`:
-            if account in group_transactions:
-                add_transactions(transactions, group_transactions[account])
-        return transactions
+            return total
+        if group_transactions is None:
+            group_transactions = {}
+        for account in link.group - {self}:
+            total += flows(account, group_transactions.get(account, None))
+        return total
 
     def max_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -282,14 +273,26 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_inflow_link)
+        # Find how much of the shared limit is left after accounting for
+        # the flows of every account in the group (this one included):
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        group_limit = (
+            self.max_inflow_limit
+            - self.inflows(transactions)
+            - self._group_flows(
+                self.max_inflow_link, Account.inflows, group_transactions))
+        if transaction_limit is None:
+            transaction_limit = group_limit
+        else:
+            transaction_limit = min(transaction_limit, group_limit)
         return super().max_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
 
     def max_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -313,14 +316,26 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_outflow_link)
+        # Find how much of the shared limit is left after accounting for
+        # the flows of every account in the group (this one included):
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        group_limit = (
+            self.max_outflow_limit
+            - self.outflows(transactions)
+            - self._group_flows(
+                self.max_outflow_link, Account.outflows, group_transactions))
+        if transaction_limit is None:
+            transaction_limit = group_limit
+        else:
+            transaction_limit = max(transaction_limit, group_limit)
         return super().max_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
 
     def min_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -344,14 +359,26 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_inflow_link)
+        # Find how much of the shared limit is left after accounting for
+        # the flows of every account in the group (this one included):
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        group_limit = (
+            self.min_inflow_limit
+            - self.inflows(transactions)
+            - self._group_flows(
+                self.min_inflow_link, Account.inflows, group_transactions))
+        if transaction_limit is None:
+            transaction_limit = group_limit
+        else:
+            transaction_limit = min(transaction_limit, group_limit)
         return super().min_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
 
     def min_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -375,8 +402,19 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_outflow_link)
+        # Find how much of the shared limit is left after accounting for
+        # the flows of every account in the group (this one included):
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        group_limit = (
+            self.min_outflow_limit
+            - self.outflows(transactions)
+            - self._group_flows(
+                self.min_outflow_link, Account.outflows, group_transactions))
+        if transaction_limit is None:
+            transaction_limit = group_limit
+        else:
+            transaction_limit = max(transaction_limit, group_limit)
         return super().min_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
-- 
2.43.0


From da3f70766dfb58ff22f72657833c70815f48e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 07/87] fix: room roll-over of RRSPs and TFSAs ignored
 contributions and withdrawals of the other accounts sharing the room

---
 forecaster/canada/accounts/rrsp.py | 4 +++-
 forecaster/canada/accounts/tfsa.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..c03e57a 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -214,7 +214,9 @@ class RRSP(RegisteredAccount):
                 self.inflation_adjust,
                 year + 1)
             # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            rollover = self.contribution_room - sum(
+                # Room is shared between all linked accounts
+                account.inflows() for account in self.max_inflow_link.group)
             return min(
                 accrual,
                 max_accrual # Money value
diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..a570669 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -125,7 +125,10 @@ class TFSA(RegisteredAccount):
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
         # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # (Room is shared between all linked accounts)
+        rollover = self.contribution_room - sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From 6ae4a96e20351b520c162ec785d32fcb10a148df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 08/87] fix: TFSA room accrued a year early (at 17), and by the
 owner's rather than the contributor's age

---
 forecaster/canada/accounts/tfsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index a570669..ee8cc51 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -102,8 +102,8 @@ class TFSA(RegisteredAccount):
 
         This excludes any rollovers - it's just the statutory accrual.
         """
-        # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        # No accrual if the contributor is too young to qualify:
+        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From 3ef537aa379613b9ff3c0e8c704f8f48540375fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 09/87] fix: RRIF withholding tax was charged on the withdrawal
 plus the mandatory minimum instead of on the excess over it

---
 forecaster/canada/accounts/rrsp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index c03e57a..387e049 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -146,7 +146,10 @@ class RRSP(RegisteredAccount):
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
             # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            # (Recall that outflow limits are negative)
+            taxable_income = max(
+                self.taxable_income + self.min_outflow_limit,
+                self.precision_convert(0)) # Money value
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From 336de04b40b3e6113871ec55a7d002d1fd100c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 10/87] fix: contribution room given via inputs for a later
 year did not change the room actually offered

---
 forecaster/canada/accounts/registered_account.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 99e6618..2d89205 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -160,7 +160,9 @@ class RegisteredAccount(LinkedLimitAccount):
         # Now assign the contribution room we determined earlier to
         # the linked data store:
         if first_account:
-            self.contribution_room = contribution_room
+            # (Assign to `max_inflow_limit` directly, since `inputs` values
+            # can't be set via `contribution_room`)
+            self.max_inflow_limit = contribution_room
 
     def next_contribution_room(self):
         """ Returns the contribution room for next year.
-- 
2.43.0


From 9b904f2293ff7df4db02698f0b6f732180f1e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 11/87] fix: TFSA could not be created when inputs gave
 contribution room only for later years

---
 forecaster/canada/accounts/tfsa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index ee8cc51..6195ab8 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,12 +73,13 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        past_years = [
+            year for year in self._contribution_room_history
+            if year < self.initial_year]
+        if past_years:
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
-            last_year = max(
-                year for year in self._contribution_room_history
-                if year < self.initial_year)
+            last_year = max(past_years)
             contribution_room = self._contribution_room_history[last_year]
             # We'll add up accruals starting the year after that:
             start_year = last_year + 1
-- 
2.43.0


From c9df0c26e9da381894641c5f3ceabddb1c7fe338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 12/87] fix: minimum RRIF withdrawal used the contributor's age
 instead of the owner's (annuitant's)

---
 forecaster/canada/accounts/rrsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 387e049..bae06e5 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -247,7 +247,7 @@ class RRSP(RegisteredAccount):
         # Minimum withdrawals are required the year after converting to
         # an RRIF. How it is calculated depends on the person's age.
         if self.rrif_conversion_year < self.this_year:
-            age = self.contributor.age(self.this_year)
+            age = self.owner.age(self.this_year)
             if age in rrif_withdrawal_min:
                 return (
                     self.precision_convert(rrif_withdrawal_min[age])
-- 
2.43.0


From 3891a47a630e510c812655db50ba70565393b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 13/87] fix: contribution room given via inputs to one linked
 account was ignored when another account of the group advanced first

---
 forecaster/canada/accounts/registered_account.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 2d89205..32adf09 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -137,8 +137,13 @@ class RegisteredAccount(LinkedLimitAccount):
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass
             next_year = self.this_year + 1
-            if next_year in self.contribution_room_history:
-                contribution_room = self.contribution_room_history[next_year]
+            # (Any account of the group may provide it; prefer this one.)
+            known_room = [
+                account.contribution_room_history[next_year]
+                for account in (self, *self.max_inflow_link.group)
+                if next_year in account.contribution_room_history]
+            if known_room:
+                contribution_room = known_room[0]
             else:
                 # Otherwise, generate it using the magic method:
                 contribution_room = self.next_contribution_room()
-- 
2.43.0


From 7578ead9b078191cda1808086d3b9503a55abb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 14/87] fix: capital gain and next year's cost base were stale
 after transactions were removed (clear, del) from a taxable account

---
 forecaster/canada/accounts/taxable_account.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..c9fd108 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -111,6 +111,19 @@ class TaxableAccount(Account):
 
     def add_transaction(self, value, when='end'):
         super().add_transaction(value, when)
+        self._clear_capital_gain()
+
+    def __delitem__(self, key):
+        super().__delitem__(key)
+        self._clear_capital_gain()
+
+    def clear(self):
+        """ Clears all of the account's transactions. """
+        super().clear()
+        self._clear_capital_gain()
+
+    def _clear_capital_gain(self):
+        """ Clears values determined based on this year's transactions. """
         # Invalidate the cache for acb and capital gains, since
         # transactions will affect it.
         # pylint: disable=no-member
-- 
2.43.0


From 36399ea2648a82d02bd9e2cfa23eacf4c8ac23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 15/87] fix: a step's recorded transactions of a closed year
 were wiped from its history when advancing

---
 forecaster/forecast/subforecast.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..6dae539 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -145,14 +145,18 @@ class SubForecast(Ledger):
         # Since `account` can be a dict (which is non-hashable),
         # we use a custom subclass of defaultdict that allows
         # non-hashable keys.
-        self._transactions = TransactionDict(
-            lambda: defaultdict(lambda: 0)) # Money value
+        self._clear_transactions()
         # If the subforecast is called more than once, we
         # may want to do some unwinding. Use this to track
         # whether this subforecast has been called before:
         self._call_invoked = False
         self.total_available = 0 # Money value
 
+    def _clear_transactions(self):
+        """ Replaces the record of transactions with an empty one. """
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
+
     @recorded_property
     def transactions(self):
         """ `TransactionDict` tracking transactions to/from accounts. """
@@ -170,7 +174,10 @@ class SubForecast(Ledger):
         # are recorded with their current state:
         super().next_year()
         # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # (We assign a new object because the old one is stored by the
+        # `transactions` recorded_property; invoking `clear` would
+        # affect past-year records.)
+        self._clear_transactions()
         self._call_invoked = False
 
     def __call__(self, available):
-- 
2.43.0


From 1120a7baa993d184a4a34b8c07fa64a570021b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 16/87] fix: undoing a step did not forget the undone
 transactions, so recomputing it twice reversed too much

---
 forecaster/forecast/subforecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 6dae539..22766dd 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -214,6 +214,8 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # They've been reversed, so there's nothing left to undo:
+        self._clear_transactions()
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From 7c8d0991ff8c2e74f4234797f715689297b23a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 17/87] fix: debt_repayment reported retirement contributions
 instead of payments to debts

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From 98dc9922dd3762f063c271bd5a9128a094a6ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 18/87] fix: tax withheld on withdrawals accumulated over years

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..82621a4 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -123,6 +123,12 @@ class WithdrawalForecast(SubForecast):
             # Keep track of total tax withheld:
             self.tax_withheld += new_tax_withheld
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been withheld yet in the new year:
+        self.tax_withheld = self.precision_convert(0) # Money value
+
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-- 
2.43.0


From 55a7d1927a09cde0f543a02fc59f493c137e8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 19/87] fix: forecasts failed with ZeroDivisionError in years
 without any net income

---
 forecaster/forecast/living_expenses.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..3d3705b 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -49,8 +49,16 @@ class LivingExpensesForecast(SubForecast):
         # living expenses every time each of them gets paid
         # proportionately to their share of net income.
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income != 0:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
+        else:
+            # Without any income (e.g. in retirement), split living
+            # expenses equally:
+            income_weights = {
+                person: self.precision_convert(1) / len(self.people)
+                for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From b753eb5e5b8d2cb9466539291871e50eda9c535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 20/87] fix: listing the accounts of a step's transactions
 raised TypeError

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 22766dd..91d2dae 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -73,7 +73,7 @@ class TransactionDict(defaultdict):
         # NOTE: We can't use a frozenset; it requires hashable values.
 
         # Translation between key and id(key) is handled by __iter__
-        return sorted(self.__iter__())  # Returns a list
+        return list(self.__iter__())
 
 class SubForecast(Ledger):
     """ Generic class for implementing part of a financial forecast.
-- 
2.43.0


From 9a7653fb66533eed8405ad9752d1bae2b19d9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 21/87] fix: a person's deductions and credits were each
 counted twice in assessing tax

---
 forecaster/tax.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..03a8c6d 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -403,14 +403,10 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        # `self.deduction` and `self.credit` already include the person's
+        # own `tax_deduction` and `tax_credit`.
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From 2a1da4084d04392a00fceded324b2175ba01ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 22/87] fix: accum(year) of an unlisted year, if asked first,
 indexed the rates instead of the thresholds and left them cached as the
 year's brackets

---
 forecaster/tax.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 03a8c6d..21b2efa 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -216,9 +216,7 @@ class Tax(HighPrecisionOptional):
         # add_brackets() does this for us.
         if year not in self._accum:
             # Get the inflation-adjusted tax brackets for this year:
-            brackets = extend_inflation_adjusted(
-                self._tax_brackets, self.inflation_adjust, year)
-            self.add_brackets(brackets, year)
+            self.tax_brackets(year)
         if bracket is None:
             return self._accum[year]
         return self._accum[year][bracket]
-- 
2.43.0


From 3444e04fadf46a526920941f8dd43b76f7b88a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 23/87] fix: brackets derived for one unlisted year became the
 base for later years, so tax depended on which years were asked about before

---
 forecaster/tax.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 21b2efa..1da7817 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -163,6 +163,8 @@ class Tax(HighPrecisionOptional):
         # generate an entry in `accum` for each new bracket:
         self._accum = {}
         self._tax_brackets = {}
+        # Years whose brackets were provided (not derived from others):
+        self._listed_years = set()
         for year in tax_brackets:
             self.add_brackets(tax_brackets[year], year)
 
@@ -199,13 +201,16 @@ class Tax(HighPrecisionOptional):
         # then Tax objects should be treated as mutable/disposable.
         if year not in self._tax_brackets:
             # Get the inflation-adjusted tax brackets for this year:
-            base_year = nearest_year(self._tax_brackets, year)
+            # (Only extend from years that were provided explicitly, so
+            # that it doesn't matter which years were asked for before.)
+            base_year = nearest_year(self._listed_years, year)
             brackets = {
                 key * self.inflation_adjust(year, base_year):
                 self._tax_brackets[base_year][key]
                 for key in self._tax_brackets[base_year]
             }
-            self.add_brackets(brackets, year)
+            self._tax_brackets[year] = brackets
+            self.add_accum(brackets, year)
         if bracket is None:
             return self._tax_brackets[year]
         return self._tax_brackets[year][bracket]
@@ -311,6 +316,11 @@ class Tax(HighPrecisionOptional):
         Also generates an `accum` dict based on the tax brackets.
         """
         year = int(year)
+        # Discard anything derived from the years listed until now:
+        for other in set(self._tax_brackets) - self._listed_years:
+            del self._tax_brackets[other]
+            del self._accum[other]
+        self._listed_years.add(year)
         self._tax_brackets[year] = brackets
 
         self.add_accum(brackets, year)
-- 
2.43.0


From fc62d0fe696070e9f018a01d0eb88a1881a04d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 24/87] fix: people could only be taxed as a group if given as
 a set (a list or tuple raised TypeError), contrary to the documented iterable

---
 forecaster/tax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 1da7817..90ca0d5 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -440,6 +440,9 @@ class Tax(HighPrecisionOptional):
         if credit is None:
             credit = {}
 
+        # Allow any iterable of people (each is counted once):
+        people = set(people)
+
         # Base case: If {} is passed, return $0.
         if not people:
             return self.precision_convert(0)
@@ -789,6 +792,9 @@ class TaxMulti(object):
         # Total tax is simply the sum of federal and prov. taxes.
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
+        # Each jurisdiction iterates over the people being taxed:
+        if isinstance(income, collections.abc.Iterable):
+            income = set(income)
         return sum(
             tax(income, year, deduction=deductions[tax], credit=credits_[tax])
             for tax in self.jurisdictions)
-- 
2.43.0


From 8a3b2aeca959484d9ca7791825d2f166f89931ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 25/87] fix:
 TaxMulti.tax_money/tax_person/tax_people/tax_spouses and deduction raised
 unless deductions and credits were given for every jurisdiction

---
 forecaster/tax.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 90ca0d5..b0545e8 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -708,7 +708,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
@@ -746,7 +746,7 @@ class TaxMulti(object):
         return sum(
             tax.tax_money(
                 taxable_income=taxable_income, year=year,
-                deduction=deductions[tax], credit=credits_[tax])
+                **_explicit_kwargs(deductions[tax], credits_[tax]))
             for tax in self.jurisdictions)
 
     def tax_person(
@@ -759,11 +759,12 @@ class TaxMulti(object):
         return sum(
             tax.tax_person(
                 person=person, year=year,
-                deduction=deductions[tax], credit=credits_[tax])
+                **_explicit_kwargs(deductions[tax], credits_[tax]))
             for tax in self.jurisdictions)
 
     def tax_people(self, people, year, deductions=None, credits_=None):
         """ Total tax liability for a group of people. """
+        people = set(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -771,7 +772,7 @@ class TaxMulti(object):
         return sum(
             tax.tax_people(
                 people=people, year=year,
-                deduction=deductions[tax], credit=credits_[tax])
+                **_explicit_kwargs(deductions[tax], credits_[tax]))
             for tax in self.jurisdictions)
 
     def tax_spouses(self, people, year, deductions=None, credits_=None):
@@ -783,7 +784,7 @@ class TaxMulti(object):
         return sum(
             tax.tax_spouses(
                 people=people, year=year,
-                deduction=deductions[tax], credit=credits_[tax])
+                **_explicit_kwargs(deductions[tax], credits_[tax]))
             for tax in self.jurisdictions)
 
     def __call__(
@@ -804,3 +805,12 @@ def make_defaultdict(arg, default_factory=lambda: None):
     if arg is None:
         return collections.defaultdict(default_factory)
     return collections.defaultdict(default_factory, arg)
+
+def _explicit_kwargs(deduction, credit):
+    """ Keyword args for `Tax` methods, omitting those not provided. """
+    kwargs = {}
+    if deduction is not None:
+        kwargs['deduction'] = deduction
+    if credit is not None:
+        kwargs['credit'] = credit
+    return kwargs
-- 
2.43.0


From fdc376f9e8750e974764612f1c54c473018802a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 26/87] fix: combined brackets and accumulated tax of several
 jurisdictions failed (exhausted generator, summing dicts, brackets of only
 one jurisdiction)

---
 forecaster/tax.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index b0545e8..37d946c 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -675,32 +675,36 @@ class TaxMulti(object):
 
     def tax_brackets(self, year, bracket=None):
         """ Combined tax brackets for year. """
-        # If `bracket` is provided, we return a scalar:
-        if bracket is not None:
-            return sum(
-                tax.tax_brackets(year=year, bracket=bracket)
-                for tax in self.jurisdictions)
-        # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
-        bracket_keys = set.union(*(set(bracket) for bracket in brackets))
+        bracket_keys = set().union(*brackets)
         combined_brackets = {}
         # Sum up the rate for each bracket (since brackets might not
         # align, find the highest-threshold bracket for each
-        # jurisdiction without exceeding `key`)
+        # jurisdiction without exceeding `key`; there's nothing to add
+        # for a jurisdiction where there's no such bracket)
         for key in sorted(bracket_keys):
             combined_brackets[key] = sum(
-                bracket[
-                    max(inner_key for inner_key in bracket if inner_key <= key)]
-                for bracket in brackets)
+                inner[max(inner_key for inner_key in inner if inner_key <= key)]
+                for inner in brackets if min(inner) <= key)
+        # If `bracket` is provided, we return a scalar:
+        if bracket is not None:
+            return combined_brackets[bracket]
+        # Otherwise we return a dict.
         return combined_brackets
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
-        return sum(
-            tax.accum(year=year, bracket=bracket)
-            for tax in self.jurisdictions)
+        # Brackets might not align between jurisdictions, so look at the
+        # tax that each one levies on income up to each bracket:
+        combined_accum = {
+            key: sum(
+                tax.tax_money(key, year) for tax in self.jurisdictions)
+            for key in self.tax_brackets(year)}
+        if bracket is not None:
+            return combined_accum[bracket]
+        return combined_accum
 
     def personal_deduction(self, year):
         """ Personal deduction for `year`. """
-- 
2.43.0


From fc5fde766f0c5df94d38c58a55d6895768034204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 27/87] fix: spousal amount exceeded its maximum when the
 spouse's net income was negative (deductions above income)

---
 forecaster/canada/tax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..cd177ea 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -142,8 +142,9 @@ class TaxCanadaJurisdiction(Tax):
         # The credit is determined by reducing the spousal amount
         # by the spouse's (net) income, but in any event it's not
         # negative.
+        # (A negative net income doesn't increase the spousal amount.)
         credit = max(
-            max_spousal_amount - spouse_net_income,
+            max_spousal_amount - max(spouse_net_income, 0),
             0) # Money value
 
         return credit
-- 
2.43.0


From 0fc1c90f426a475ab3a965d956875c28ca09ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 28/87] fix: spousal and pension credits of a past year were
 assessed on the current year's incomes and withdrawals

---
 forecaster/canada/tax.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index cd177ea..f973966 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -74,8 +74,10 @@ class TaxCanadaJurisdiction(Tax):
             Money: The amount of the credit claimable by person in year.
         """
         pension_income = abs(sum(
-            account.outflows() for account in person.accounts
-            if isinstance(account, RRSP)))
+            account.outflows(account.transactions_history[year])
+            for account in person.accounts
+            if isinstance(account, RRSP)
+            and year in account.transactions_history))
             # NOTE: Other qualified pension income sources can be
             # added here
         # Each jurisdiction has a maximum claimable amount for the
@@ -123,14 +125,16 @@ class TaxCanadaJurisdiction(Tax):
         # This would help to avoid calling self.deductions many times.
         spouse = person.spouse
         spouse_net_income = (
-            spouse.taxable_income - self.deduction(spouse, year))
+            spouse.taxable_income_history[year]
+            - self.deduction(spouse, year))
 
         # Figure out whether to assign the credit to this person or
         # their spouse based on who has more income:
 
         # If this is the lower-earner, use their spouse instead:
         person_net_income = (
-            person.taxable_income - self.deduction(person, year))
+            person.taxable_income_history[year]
+            - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
         # If their incomes are the same, use memory location to
-- 
2.43.0


From 13722e7f7899349e658cd78e8a60280144482771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 29/87] fix: TaxCanada changed the deductions and credits
 mappings passed by the caller

---
 forecaster/canada/tax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index f973966..821bce6 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -229,11 +229,11 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
         if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
+            deductions = dict(kwargs["deductions"] or {})
         else:
             deductions = {}
         if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
+            credits_ = dict(kwargs["credits_"] or {})
         else:
             credits_ = {}
 
-- 
2.43.0


From 4e0d3f6fd334b9460c5bd631a28885c864486314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 30/87] fix: Canadian tax jurisdictions ignored the requested
 numeric precision

---
 forecaster/canada/tax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 821bce6..91c732b 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -29,6 +29,7 @@ class TaxCanadaJurisdiction(Tax):
             inflation_adjust=inflation_adjustments,
             refund_timing=self.constants.TAX_REFUND_TIMING,
             payment_timing=self.constants.TAX_PAYMENT_TIMING,
+            high_precision=high_precision,
             **kwargs)
 
         self.jurisdiction = jurisdiction
-- 
2.43.0


From e9fd4bc2032c4e700d0c4c2d527b36981fe699ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 31/87] fix: a person's deductions and credits stayed as first
 read in the year although their accounts' transactions changed (so tax
 depended on earlier queries)

---
 forecaster/person.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..6421728 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -393,13 +393,13 @@ class Person(TaxSource):
 
     # NOTE: Test overloading of recorded property by subclass
 
-    @recorded_property_cached
+    @recorded_property
     def tax_deduction(self):
         """ The `Person`'s tax deductions for the year. """
         return sum(
             (account.tax_deduction for account in self.accounts))
 
-    @recorded_property_cached
+    @recorded_property
     def tax_credit(self):
         """ The `Person`'s tax credits for the year. """
         return sum(
-- 
2.43.0


From c42ff407e3af240521e9caecaeb7522d73f56a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 32/87] fix: marrying someone already married left the previous
 spouse still pointing at them, and assigning an invalid spouse silently
 separated the current couple

---
 forecaster/person.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 6421728..1803d71 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -282,6 +282,9 @@ class Person(TaxSource):
     @spouse.setter
     def spouse(self, val):
         """ Sets the Person's spouse. """
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Person: spouse must be of type Person')
+
         # If this Person already has a spouse, unlink them:
         if hasattr(self, 'spouse') and self.spouse is not None:
             # Assign to _spouse to avoid recursing on this method.
@@ -292,8 +295,9 @@ class Person(TaxSource):
 
         # If we're adding a new spouse, make sure that it links back:
         if val is not None:
-            if not isinstance(val, Person):  # Spouse must be a Person
-                raise TypeError('Person: spouse must be of type Person')
+            # Unlink the new spouse's previous spouse, if any:
+            if val.spouse is not None:
+                val.spouse._spouse = None
             # Assign to _spouse to avoid recursing on this method.
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
-- 
2.43.0


From 6043708fee5d2a09b6bc2108c6cbc1287308b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 33/87] fix: (completes 0fc1c90) pension income of the assessed
 year had the current year's withdrawals added to it

---
 forecaster/canada/tax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 91c732b..d63b4d1 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -75,10 +75,10 @@ class TaxCanadaJurisdiction(Tax):
             Money: The amount of the credit claimable by person in year.
         """
         pension_income = abs(sum(
-            account.outflows(account.transactions_history[year])
-            for account in person.accounts
-            if isinstance(account, RRSP)
-            and year in account.transactions_history))
+            value
+            for account in person.accounts if isinstance(account, RRSP)
+            for value in account.transactions_history.get(year, {}).values()
+            if value < 0))
             # NOTE: Other qualified pension income sources can be
             # added here
         # Each jurisdiction has a maximum claimable amount for the
-- 
2.43.0


From 2f437374e95cebbe90a0010a65a81102fa238528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 34/87] fix: Scenario.inflation_adjustments gave the inverse of
 the documented adjustment (present values for later years, cumulative
 inflation for earlier ones)

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From 8471e0f44a4ecd12ff4228d9cdf13da3cf215f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 35/87] fix: tax withheld on withdrawals expressed as positive
 amounts (RRSPs) was added to the money available instead of taken out of it

---
 forecaster/forecast/withdrawal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 82621a4..7ad128c 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -107,8 +107,11 @@ class WithdrawalForecast(SubForecast):
         # an increase, but this code works for decreases too) then
         # record a transaction out of the account:
         if account.tax_withheld != old_tax_withheld:
-            # Find the change in tax withholdings for the account
-            new_tax_withheld = account.tax_withheld - old_tax_withheld
+            # Find the change in tax withholdings for the account,
+            # expressed as a (negative) reduction of what's available.
+            # (Accounts may express withholdings as positive amounts,
+            # like `RRSP` and `Person` do, or as outflows.)
+            new_tax_withheld = abs(old_tax_withheld) - abs(account.tax_withheld)
             # Assume they're withheld with the same timing and
             # weighting as the withdrawals themselves:
             transactions = transactions_from_timing(
-- 
2.43.0


From 12e78861f2e46fd6a27d857798bfa684c805a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 36/87] fix: a step given an account as its pool reported the
 money available with the wrong sign

---
 forecaster/forecast/subforecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 91d2dae..85ed7eb 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -203,7 +203,8 @@ class SubForecast(Ledger):
             # Consider whether we should instead sum over transactions
             # (for dicts and Accounts) and then add the account opening
             # balance (only for Accounts).
-            self.total_available = available.max_outflow(1)
+            # (`max_outflow` is negative, as all outflows are.)
+            self.total_available = -available.max_outflow(1)
         else:
             self.total_available = sum(available.values())
 
-- 
2.43.0


From bcc2ad5761ae1bd6c4ef05c7182d476ee5519d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 37/87] fix: a transfer from an account that is empty or
 overdrawn before a later deposit raised ZeroDivisionError or ValueError

---
 forecaster/accounts/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 904a7b9..e7f7aa1 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -162,7 +162,12 @@ def time_to_value(rate, value_now, value_then, nper=1, *, high_precision=None):
     Returns:
         A Decimal object representing the time required to
         grow (or shrink) from `value_now` to `value_then`.
+        This is infinite if no amount of growth will do (i.e. if
+        one value is zero or the values have different signs).
     """
+    if value_now == 0 or value_then / value_now <= 0:
+        time = 0 if value_now == value_then else float('inf')
+        return time if high_precision is None else high_precision(time)
     return accumulation_function_inverse(
         accum=value_then/value_now, rate=rate, nper=nper,
         high_precision=high_precision)
-- 
2.43.0


From 64dc57e18ec1134344e157c9b227a01b5223891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 38/87] fix: a transfer could be moved to a time before the
 deposit that pays for it, leaving the account overdrawn

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 85ed7eb..a398722 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -480,5 +480,5 @@ class SubForecast(Ledger):
                     # If that time falls within the period
                     # (earlier, later), then add it!
                     if time > earlier and time < later:
-                        accum[time] = -sum(account.max_outflows(time).values())
+                        accum[time] = -account.max_outflow(time)
         return accum
-- 
2.43.0


From 82af1969f6e149f611a3da6019fa09c95e81b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 39/87] fix: a flow that uses all money available at its time
 was shifted to a later time by a rounding error

---
 forecaster/forecast/subforecast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index a398722..cd9dbb3 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -2,6 +2,7 @@
 
 from collections import defaultdict
 from collections.abc import Hashable
+from math import isclose
 from forecaster.ledger import Ledger, recorded_property
 from forecaster.accounts import Account
 from forecaster.utility import Timing
@@ -404,10 +405,12 @@ class SubForecast(Ledger):
 
         # Find the points in time where subtracting `value`
         # would not put any future point in time into negative
-        # balance.
+        # balance. (Amounts that differ only by rounding are equal; a
+        # flow that uses up everything available isn't shifted.)
         eligible_times = (
             t for t in accum if all(
-                accum[r] >= value for r in accum if r >= t))
+                accum[r] >= value or isclose(accum[r], value)
+                for r in accum if r >= t))
 
         # Find the earliest valid time (or, if none exists,
         # use `when`)
-- 
2.43.0


From 6ed5221a894a54423a49d2a241d2a90c41bf9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 40/87] fix: a shortfall was withdrawn from accounts by the
 saving step, by the saving strategy, without taking the tax withheld out of
 cash

---
 forecaster/forecast/saving.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 101e0db..c467b1a 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -50,8 +50,13 @@ class SavingForecast(SubForecast):
         super().__call__(available)
 
         accounts = set(self.retirement_accounts).union(self.debt_accounts)
-        self.account_transactions = self.transaction_strategy(
-            available, accounts=accounts)
+        # Only a surplus can be saved. Any shortfall is left in
+        # `available` (for WithdrawalForecast to deal with).
+        if self.total_available > 0:
+            self.account_transactions = self.transaction_strategy(
+                available, accounts=accounts)
+        else:
+            self.account_transactions = {}
 
         # NOTE: We let the transactions_strategy determine
         # timing. It will use each account's default timing. Consider
-- 
2.43.0


From 66a7f71aa74dac8a81843bc3b506b70242d3a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 41/87] fix: a surplus left after saving was deposited in
 accounts by the withdrawal step instead of being carried over

---
 forecaster/forecast/withdrawal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 7ad128c..452da4f 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -57,8 +57,13 @@ class WithdrawalForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
-        self.account_transactions = self.transaction_strategy(
-            available, accounts=self.accounts)
+        # Withdrawals are only needed to cover a shortfall. Any surplus
+        # is left in `available` (and is carried over to next year).
+        if self.total_available < 0:
+            self.account_transactions = self.transaction_strategy(
+                available, accounts=self.accounts)
+        else:
+            self.account_transactions = {}
 
         # pylint: disable=not-an-iterable,unsubscriptable-object,no-member
         # pylint can't infer the type of account_transactions
-- 
2.43.0


From eaf6e8c2715b30b9155107962b8bd5dbc5b6c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 42/87] fix: a year with a surplus reported negative
 withdrawals

---
 forecaster/forecast/withdrawal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 452da4f..da3a079 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -150,7 +150,9 @@ class WithdrawalForecast(SubForecast):
         # over the course of the year.
         # TODO: Increase gross withdrawals based on tax liability #34
         # Aim is for `net_withdrawals` to approximate `total_available`.
-        return -self.total_available
+        return max(
+            -self.total_available,
+            self.precision_convert(0)) # Money value
 
     @recorded_property
     def net_withdrawals(self):
-- 
2.43.0


From a213947b69064d9cf4c39cf993abe32429ccb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 43/87] fix: TransactionStrategy raised NetworkXError when no
 account has a weight (every account type without weight); nothing is
 allocated then

---
 forecaster/strategy/transaction/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..45562ae 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -253,6 +253,10 @@ class TransactionTraversal(HighPrecisionOptional):
         else:  # No transactions since total ~= 0
             return {}
 
+        # No transactions if there are no accounts to receive them:
+        if not _get_accounts(self._priority_tree):
+            return {}
+
         # Clear dicts storing former graph information that's carried
         # over between traversals (only memo _needs_ to be, but
         # outbound_nodes and overflow_nodes are guaranteed to be
-- 
2.43.0


From a5a3118401390728fc0b74d7bfda7e45d5c44076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 44/87] fix: TaxCanada(payment_timing=...) (documented) and
 refund_timing raised TypeError

---
 forecaster/canada/tax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index d63b4d1..55669a8 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -18,6 +18,9 @@ class TaxCanadaJurisdiction(Tax):
             self.constants = ConstantsCanada(high_precision=high_precision)
         else:
             self.constants = constants
+        # Timings given explicitly take precedence over the constants:
+        kwargs.setdefault("refund_timing", self.constants.TAX_REFUND_TIMING)
+        kwargs.setdefault("payment_timing", self.constants.TAX_PAYMENT_TIMING)
         # All the work here is done by the superclass, we just need to
         # tell it what brackets/credits/deductions/timing to apply:
         super().__init__(
@@ -27,8 +30,6 @@ class TaxCanadaJurisdiction(Tax):
             ],
             credit_rate=self.constants.TAX_CREDIT_RATE[jurisdiction],
             inflation_adjust=inflation_adjustments,
-            refund_timing=self.constants.TAX_REFUND_TIMING,
-            payment_timing=self.constants.TAX_PAYMENT_TIMING,
             high_precision=high_precision,
             **kwargs)
 
@@ -188,7 +189,8 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         self.province = province
 
         jurisdictions = (self.federal_tax, self.provincial_tax)
-        super().__init__(jurisdictions, **kwargs)
+        super().__init__(
+            jurisdictions, high_precision=kwargs.get("high_precision"))
 
     def __call__(
             self, income, year,
-- 
2.43.0


From 3db739240e9efdf39a8b9ccf6c5f243e70733be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 45/87] fix: minimum withdrawals were never allocated (infinite
 total capacity treated as 0), and would have raised the maximum withdrawal

---
 forecaster/strategy/transaction/base.py  | 18 +++++++++++++-----
 forecaster/strategy/transaction/graph.py |  3 +++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 45562ae..772eec6 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -247,9 +247,14 @@ class TransactionTraversal(HighPrecisionOptional):
         elif total < -self.precision:  # outflows
             min_limit = LIMIT_TUPLE_FIELDS.min_outflow
             max_limit = LIMIT_TUPLE_FIELDS.max_outflow
-            # Limit min. outflows based on what's in the account, not
-            # the shortfall we're trying to fill:
-            min_total = float('-inf')
+            # Limit min. outflows based on what's in the accounts, not
+            # the shortfall we're trying to fill. (The total must be
+            # finite; only edges with finite capacity are allocated.)
+            min_total = sum(
+                sum(_get_transactions(
+                    account, min_limit, available,
+                    transaction_methods=self.transaction_methods).values())
+                for account in _get_accounts(self._priority_tree))
         else:  # No transactions since total ~= 0
             return {}
 
@@ -1163,8 +1168,9 @@ class TransactionTraversal(HighPrecisionOptional):
                 isinstance(transaction_limit,float)):
             transaction_limit = self.high_precision(transaction_limit)
         # Scale up based on the precision (as we do with all edge
-        # capacities):
-        capacity = transaction_limit / self.precision
+        # capacities). Capacity and flows are non-negative, but outflow
+        # limits are negative:
+        capacity = abs(transaction_limit) / self.precision
 
         # Most accounts add an edge straight to `sink`, but accounts
         # that have shared transaction limits have special treatment:
@@ -1176,6 +1182,7 @@ class TransactionTraversal(HighPrecisionOptional):
             # of the linked nodes of the group)
             # This prevents inadvertent over-contribution/withdrawal:
             capacity -= _flows_through(group_node, flows=self.memo)
+            capacity = max(capacity, 0)
             _add_edge(
                 self.graph, node, group_node,
                 capacity=capacity, limit=capacity)
@@ -1185,6 +1192,7 @@ class TransactionTraversal(HighPrecisionOptional):
         else:
             # Reduce capacity based on any memoized flows through `node`
             capacity -= _flows_through(node, flows=self.memo)
+            capacity = max(capacity, 0)
 
         # Send an edge from the node to the sink, if provided:
         if self.sink is not None:
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 988c9e2..5ed5826 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -149,7 +149,10 @@ def _add_edge(
 
         # Reduce capacity by any previously-allocated flows over this
         # edge:
+        # (which might be more than `capacity`; e.g. minimum outflows
+        # can exceed the total amount to be withdrawn)
         capacity -= _flows_through(from_node, to_node, flows=memo)
+        capacity = max(capacity, 0)
         # Only assign `capacity` as an edge value if it is finite.
         # (networkx doesn't deal well with float('inf'). The
         # "capacity" attr should be absent if capacity is unbounded.)
-- 
2.43.0


From 4d22c6a8cfa5df794e25e20d952e8e04ef9e361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 46/87] fix: weighted shares were not proportional (or not
 everything was allocated) when a member is limited after another's minimum
 exceeded its share

---
 forecaster/strategy/transaction/base.py  | 12 ++---
 forecaster/strategy/transaction/graph.py | 68 +++++++++++++-----------
 2 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 772eec6..335f8e5 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -789,11 +789,9 @@ class TransactionTraversal(HighPrecisionOptional):
             recurse_children = {
                 child: weight for child, weight in children.items()
                 if totals[child] > 0}
-            # Capacity should be restored to its original value...
+            # Capacity should be restored to its original value (which
+            # doesn't include any previously allocated flows):
             capacity -= flows
-            # ... and further reduced by the amount of excess flows
-            # previously allocated to some children:
-            capacity += sum(total for total in totals.values() if total < 0)
             self._add_weighted_children(
                 node, recurse_children, capacity, **kwargs)
             # As for the children that have been over-allocated flow,
@@ -1023,12 +1021,14 @@ class TransactionTraversal(HighPrecisionOptional):
             # Ensure that, if any changes in capacity cause additional
             # flow to go through `overflow_node`, that such overflows
             # are directed to `children` (which we know can accept it.)
-            _restrict_overflow(
+            restricted = _restrict_overflow(
                 self.graph, node, children, flows, self.overflow_nodes,
                 outbound_nodes=self.outbound_nodes)
             self._balance_flows(node, children=children, **kwargs)
             # Undo the foregoing mutation of edges from `overflow_node`:
-            _unrestrict_overflow(self.graph, node, self.overflow_nodes)
+            _unrestrict_overflow(
+                self.graph, node, restricted, self.overflow_nodes,
+                outbound_nodes=self.outbound_nodes)
 
     def _add_node_ordered(
             self, node, children, *, capacity=None, **kwargs):
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 5ed5826..0130bbf 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -372,13 +372,15 @@ def _get_overflow_node(node, overflow_nodes, outbound_node=None):
 
 def _restrict_overflow(
         graph, node, children, flows, overflow_nodes, outbound_nodes=None):
-    """ Limits overflows to successors not in `children` at given flows.
+    """ Locks flows to successors not in `children` at given flows.
 
-    If `node` (or its outbound node) has an overflow node, outbound
-    edges from that overflow node to any children not in `children` have
-    their capacity limited to the values for those edges in `flows`.
-    This prevents any children not in `children` from increasing their
-    total flows, but allows flows to shift between nodes in `children`.
+    If `node` (or its outbound node) has an overflow node, any children
+    of `node` not in `children` have the capacity of their 0-weight edge
+    set to their total flows in `flows` (including overflows), and they
+    can't receive further overflows. This prevents the total flows of
+    such children from changing (so long as the total flows to
+    `children` are feasible), but allows flows to shift between nodes in
+    `children`.
 
     `_unrestrict_overflow` is a companion method.
 
@@ -393,40 +395,50 @@ def _restrict_overflow(
             `node: overflow_node` pairs.
         outbound_nodes (dict[Hashable, Hashable]): A mapping of
             `node: outbound_node` pairs. Optional.
+
+    Returns:
+        dict[Hashable: int]: The previous capacities of the edges from
+        the overflow node to each restricted child.
     """
     # Process input:
     outbound_node = _get_outbound_node(node, outbound_nodes)
     overflow_node = _get_overflow_node(
         node, overflow_nodes, outbound_node=outbound_node)
 
+    restricted = {}
     if overflow_node is None:
         # If there is no overflow node, there's nothing to do.
-        return
+        return restricted
 
-    # Limit the capacity from `overflow_node` to each child of `node`
-    # which is _not_ in `children`. The goal here is to ensure that any
-    # changed in 0-weight capacity result in excess flow being forced
-    # through `children` (via `overflow_node`) and not other nodes.
     for child in node.children:
         if child not in children:
-            if overflow_node in flows and child in flows[overflow_node]:
-                capacity = flows[overflow_node][child]
-            else:
-                capacity = 0
-            edge_data = {CAPACITY_KEY: capacity}
-            graph.add_edge(overflow_node, child, **edge_data)
+            # Don't add to the flows of children which were already
+            # locked by calling code:
+            capacity = graph[overflow_node][child].get(CAPACITY_KEY)
+            if capacity == 0:
+                continue
+            restricted[child] = capacity
+            _add_edge(
+                graph, outbound_node, child,
+                capacity=(
+                    flows[outbound_node][child]
+                    + flows[overflow_node][child]))
+            _add_edge(graph, overflow_node, child, capacity=0)
+    return restricted
 
 def _unrestrict_overflow(
-        graph, node, overflow_nodes, outbound_nodes=None):
-    """ Undoes the effects of `_restrict_overflow`.
+        graph, node, restricted, overflow_nodes, outbound_nodes=None):
+    """ Undoes the effects of `_restrict_overflow` on overflows.
 
-    If `node` (or its outbound node) has an overflow node, outbound
-    edges from that overflow node have their capacity reset so as not
-    to restrict flows over those edges.
+    The capacities of edges from the overflow node are restored. (Any
+    changes to 0-weight edges are retained, since these capacities
+    correspond to actual flows.)
 
     Args:
         graph (networkx.DiGraph): A directed graph.
         node (Hashable): A node in `graph`
+        restricted (dict[Hashable: int]): The return value of
+            `_restrict_overflow`.
         overflow_nodes (dict[Hashable, Hashable]): A mapping of
             `node: overflow_node` pairs.
         outbound_nodes (dict[Hashable, Hashable]): A mapping of
@@ -437,16 +449,8 @@ def _unrestrict_overflow(
     overflow_node = _get_overflow_node(
         node, overflow_nodes, outbound_node=outbound_node)
 
-    if overflow_node is None:
-        # If there is no overflow node, there's nothing to do.
-        return
-
-    # Restore plenty of capacity to each edge from `overflow_node` to
-    # each child:
-    capacity = _outbound_capacity(graph, outbound_node, weight=0)
-    for child in node.children:
-        edge_data = {CAPACITY_KEY: capacity}
-        graph.add_edge(overflow_node, child, **edge_data)
+    for child, capacity in restricted.items():
+        graph.add_edge(overflow_node, child, **{CAPACITY_KEY: capacity})
 
 def _swap_saturated(
         saturated, non_saturated, node, children, graph, flows,
-- 
2.43.0


From 50aa85f3fd427cb3f6dea189bc1914c592826c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 47/87] fix: assign_min=False was ignored by
 TransactionTraversal

---
 forecaster/strategy/transaction/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 335f8e5..31f9c33 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -270,9 +270,11 @@ class TransactionTraversal(HighPrecisionOptional):
         self.outbound_nodes = {}
         self.overflow_nodes = {}
         # Build and traverse a graph based on `priority`
-        # First traverse to assign min. flows:
-        min_transactions = self._traverse_priority(
-            min_total, available, min_limit)
+        # First traverse to assign min. flows (if applicable):
+        min_transactions = {}
+        if assign_min:
+            min_transactions = self._traverse_priority(
+                min_total, available, min_limit)
         # Then traverse to assign max. flows. Pass in `memo` to ensure
         # that the flows assigned previously are respected
         max_transactions = self._traverse_priority(
-- 
2.43.0


From fc0fb4710f6001fa4b6bcacaf1364f2ae4e4d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 48/87] fix: a TransactionNode as the root of a priority tree
 raised AttributeError

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From 6631b8cfd344e57cd0005387065b59d660414a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 49/87] fix: TransactionTraversal(transaction_methods=,
 group_methods=) raised TypeError when called

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 31f9c33..090aba8 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From d88c37638a5308febc70707da5fb9c95398d45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 50/87] fix: a node's negative outflow limit, or limit below
 its members' minimums, allowed the wrong amount

---
 forecaster/strategy/transaction/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 090aba8..6b01178 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -615,11 +615,12 @@ class TransactionTraversal(HighPrecisionOptional):
                 limit_value = limit_value.amount
             if limit_value is not None:
                 # Scale up the limit value by `precision` to avoid
-                # rounding issues:
-                limit_value /= self.precision
+                # rounding issues (outflow limits may be negative):
+                limit_value = abs(limit_value) / self.precision
                 # Reduce `limit_value` based on any memoized flows
                 # through `node`:
                 limit_value -= _flows_through(node, flows=self.memo)
+                limit_value = max(limit_value, 0)
                 # Use the lesser of `capacity` and `limit_value`;
                 # successors use this to determine their edge capacities
                 capacity = min(capacity, limit_value)
-- 
2.43.0


From 1794a0604c39cbdc8ba19a78b607da148074c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 51/87] fix: rounding made weighted rebalancing give a limited
 member's excess to only some of the other members

---
 forecaster/strategy/transaction/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 0130bbf..54ff64c 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -492,7 +492,9 @@ def _swap_saturated(
         if child in saturated:
             new_capacity = graph[outbound_node][child][CAPACITY_KEY]
             old_capacity = flows[outbound_node][child]
-            if new_capacity != old_capacity:
+            # (Reallocating capacity rounds each child's capacity down,
+            # so a difference of a few units is not a reallocation.)
+            if abs(new_capacity - old_capacity) > len(children):
                 saturated.remove(child)
                 non_saturated.add(child)
 
-- 
2.43.0


From 49bdd75a20001825601efdfcdbbb03c586d86362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 52/87] fix: minimum flows were not counted against a maximum
 shared with other accounts

---
 forecaster/strategy/transaction/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 6b01178..c9c8d1d 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1180,11 +1180,13 @@ class TransactionTraversal(HighPrecisionOptional):
         group = _get_group(node, limit, group_methods=self.group_methods)
         if group is not None:
             group_node = frozenset(group)  # make hashable
-            # Reduce capacity based on any memoized flows through
-            # `group_node` (which accounts for all flows through all
-            # of the linked nodes of the group)
+            # Reduce capacity based on any memoized flows through all
+            # of the linked nodes of the group (not through `group_node`,
+            # since the group for this `limit` isn't necessarily the
+            # same as the group for previously-traversed limits).
             # This prevents inadvertent over-contribution/withdrawal:
-            capacity -= _flows_through(group_node, flows=self.memo)
+            capacity -= sum(
+                _flows_through(member, flows=self.memo) for member in group)
             capacity = max(capacity, 0)
             _add_edge(
                 self.graph, node, group_node,
-- 
2.43.0


From aec92dfb3d369e06f66c44715ed10f5cee832377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 53/87] fix: an account after a nested sequence could be filled
 before the sequence's last accounts (tied costs)

---
 forecaster/strategy/transaction/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index c9c8d1d..dcbb1c6 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1071,7 +1071,7 @@ class TransactionTraversal(HighPrecisionOptional):
             # Ensure that assigning flows to the next child in sequence
             # has a penalty larger than any path through the current
             # child's successors:
-            weight = max(weight, _sum_weight(self.graph, child)) + 1
+            weight += _sum_weight(self.graph, child) + 1
 
     def _add_node_leaf(
             self, node, child, *, capacity=None, **kwargs):
-- 
2.43.0


From cabefa18c145539d0fff782ef4e0efa04d105de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 54/87] fix: rebalancing weighted overflows undid the balance
 of linked accounts (stale flows)

---
 forecaster/strategy/transaction/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index dcbb1c6..7303df3 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -963,8 +963,9 @@ class TransactionTraversal(HighPrecisionOptional):
 
         # Now do the same thing, but for non-underflow nodes.
         overflow_expanded = overflow.union(saturated)
-        # NOTE: We use the same `flows` because only flows to
-        # _underflow_ nodes have changed in the previous step.
+        # NOTE: Flows to underflow nodes have changed in the previous
+        # step, and must not be changed back by the next step.
+        _, flows = _generate_flows(self.graph, self.source, self.sink)
         self._balance_flows_recurse(
             node, children=overflow_expanded, flows=flows, **kwargs)
 
-- 
2.43.0


From 577e4ce2501d3af93c1023708deb371b6495cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 55/87] fix: linked accounts' shared withdrawal limit was
 replaced by the last account's own (balance) limit

---
 forecaster/strategy/transaction/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 7303df3..9f00280 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -25,7 +25,7 @@ from forecaster.strategy.transaction.util import (
     _convert_flows_to_transactions)
 from forecaster.strategy.transaction.node import TransactionNode
 from forecaster.strategy.transaction.graph import (
-    _get_empty_graph, _add_edge, _flows_through, _generate_flows,
+    CAPACITY_KEY, _get_empty_graph, _add_edge, _flows_through, _generate_flows,
     _inbound_capacity, _merge_flows, _outbound_capacity, _sum_weight,
     _get_outbound_node, _get_overflow_node, _classify_children_by_flows,
     _swap_saturated, _restrict_overflow, _unrestrict_overflow)
@@ -1195,6 +1195,14 @@ class TransactionTraversal(HighPrecisionOptional):
             # We're done with the original account node; all further
             # edges will be from the group node.
             node = group_node
+            # Each account's own limit might be lower than the group's
+            # (e.g. if it can't withdraw that much), so use the largest
+            # of the limits of the accounts visited so far:
+            if self.sink is not None and self.graph.has_edge(node, self.sink):
+                capacity = max(
+                    capacity,
+                    self.graph[node][self.sink].get(
+                        CAPACITY_KEY, float('inf')))
         else:
             # Reduce capacity based on any memoized flows through `node`
             capacity -= _flows_through(node, flows=self.memo)
-- 
2.43.0


From 773c000c2873c38f5ccbb4133b0f3dc8e01c02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 56/87] fix: in high precision, strategies shared cached
 parameters (thresholds, amounts, rates) with other instances

---
 forecaster/utility/precision.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..cec6d0d 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -107,9 +107,15 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
     def __init__(self):
         super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+        # Name of the attribute of each object which holds its cached
+        # `(high_precision, value)` pair (for efficient calls to
+        # __get__). The descriptor itself is shared by all objects of
+        # the class, so it can't hold cached values. Set by __set_name__
+        self.cache_name = None
+
+    def __set_name__(self, owner, name):
+        super().__set_name__(owner, name)
+        self.cache_name = self.private_name + '_high_precision_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -127,13 +133,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
         # Check to see if the previous return value is cached and can
         # be used for these inputs:
+        cached = getattr(obj, self.cache_name, None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cached is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cached[0] == high_precision):
+            return cached[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +150,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        setattr(obj, self.cache_name, (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self.cache_name, None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From d4b73cdd88cac54efcdf2b860c761516f61a9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 57/87] fix: low-interest debts were repaid in equal shares,
 ignoring avalanche/snowball, once any debt was paid off (or debts had several
 weights)

---
 forecaster/strategy/transaction/strategy.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index db0b13b..bb33e82 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -308,18 +308,27 @@ class TransactionStrategy(Strategy):
         low_interest_debts, high_interest_debts = self.divide_debts(accounts)
         # Get priority trees for each debt. These will be inserted into
         # the final priority tree differently (in-place replacement for
-        # low-interest, prepending for high-interest.)
-        low_interest_priority = self.debt_priority(low_interest_debts)
+        # low-interest (below), prepending for high-interest.)
         high_interest_priority = self.debt_priority(high_interest_debts)
 
+        # Debts that have already been paid off don't receive anything
+        # (and shouldn't affect how other debts are grouped):
+        paid_debts = {
+            account for account in accounts
+            if isinstance(account, Debt)
+            and account not in low_interest_debts
+            and account not in high_interest_debts}
+
         # Group together accounts that share weights (and map them to
         # those weights for convenience):
         groups = self._weight_account_groups(
-            set(accounts) - high_interest_debts)
+            set(accounts) - high_interest_debts - paid_debts)
 
         # Ensure that low-interest debts are properly ordered, rather
         # than assigned some default order based on their common typing:
-        subtrees = {low_interest_debts: low_interest_priority}
+        subtrees = {
+            group: self.debt_priority(group) for group in groups
+            if group <= low_interest_debts}
 
         # Get the basic priority tree based on this strategy:
         priority = super().__call__(
-- 
2.43.0


From e607829a8ae257079b102c87e950d35ba6910e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 58/87] fix: transactions raised ValueError if a weighted
 strategy had a high-interest debt but no other weighted accounts (empty
 weighted node)

---
 forecaster/strategy/transaction/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 9f00280..d623fca 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -714,8 +714,10 @@ class TransactionTraversal(HighPrecisionOptional):
             # `overflow_node`.
             # It should be preferable to shift flow between _any_
             # successor path before routing it through `overflow_node`.
-            weight = 1 + max(_sum_weight(
-                self.graph, child) for child in children)
+            # (A node with no children has no flows to penalize.)
+            weight = 1 + max(
+                (_sum_weight(self.graph, child) for child in children),
+                default=0)
             _add_edge(self.graph, node, overflow_node, weight=weight)
 
         # This deals with overflows, but not underflows - which are
-- 
2.43.0


From 3158281e07d4bd8de86f72a9cbd314c176131cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 59/87] fix: age() raised ValueError for Feb. 29 dates and was
 one year too low for people born on Feb. 29 when asked for the age in a
 common year

---
 forecaster/person.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 1803d71..2ea0572 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -385,8 +385,10 @@ class Person(TaxSource):
             date = parse(str(date), default=self.birth_date)
 
         # Remember to check whether the month/day are earlier in `date`
+        # than the birthday in that year. (As for retirement_age, people
+        # born on Feb. 29 turn a year older on Feb. 28 in common years.)
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        if date < self.birth_date + relativedelta(year=date.year):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From 2aadb95d4dad4d0bf3068d85bb7dcda6cef8157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 60/87] fix: setting raise_rate_callable to None (documented as
 reverting to no raise) made every later gross income raise TypeError

---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 2ea0572..57cb42c 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From d265ff0b6dd236d400c24bb29f22ead19cb65fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:56 +0000
Subject: [PATCH 61/87] fix: AllocationStrategy raised ZeroDivisionError where
 a strategy is 100% stocks and max_equity is lower, and allocations with other
 assets did not sum to 1 when raised to min_equity

---
 forecaster/strategy/allocation.py | 32 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..cede764 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -235,30 +235,26 @@ class AllocationStrategy(Strategy):
         if allocation.stocks > self.max_equity:
             # Move the excess weighting of equity into bonds and other
             # proportionately to their current values:
-            bonds = allocation.bonds + (
-                (allocation.stocks - self.max_equity)
-                * allocation.bonds / (allocation.bonds + allocation.other)
-            )
-            other = allocation.other + (
-                (allocation.stocks - self.max_equity)
-                * allocation.other / (allocation.bonds + allocation.other)
-            )
-            allocation = AssetAllocation(self.max_equity, bonds, other)
+            allocation = self._reweight(allocation, self.max_equity)
         elif allocation.stocks < self.min_equity:
             # Move weighting to equity from bonds and other
             # proportionately to their current values:
-            bonds = allocation.bonds - (
-                (self.min_equity - allocation.stocks)
-                * allocation.bonds / (allocation.bonds + allocation.other)
-            )
-            other = allocation.other - (
-                (self.max_equity - allocation.stocks)
-                * allocation.other / (allocation.bonds + allocation.other)
-            )
-            allocation = AssetAllocation(self.min_equity, bonds, other)
+            allocation = self._reweight(allocation, self.min_equity)
 
         return allocation
 
+    @staticmethod
+    def _reweight(allocation, stocks):
+        """ Sets the portion in stocks and scales the rest to fit. """
+        total = allocation.bonds + allocation.other
+        if total == 0:
+            # There are no proportions to maintain; use bonds.
+            return AssetAllocation(stocks, 1 - stocks, allocation.other)
+        return AssetAllocation(
+            stocks,
+            (1 - stocks) * allocation.bonds / total,
+            (1 - stocks) * allocation.other / total)
+
     def __call__(self, age, *args, retirement_age=None, **kwargs):
         """ Returns a dict of {account, Money} pairs. """
         # TODO: Move min_equity and max_equity logic here to simplify
-- 
2.43.0


From b92498e5e77d3dd5ac125f01c8b4ec70935dc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 62/87] fix: numbers stored as text were read via float: long
 integers and high-precision values lost digits (e.g.
 Decimal('0.99999999999999999999') was read as 1)

---
 forecaster/value_reader.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..6420ea8 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -2,6 +2,7 @@
 
 import os
 import json
+import math
 from forecaster.utility.precision import HighPrecisionOptional
 
 INFINITY = float('inf')
@@ -335,18 +336,21 @@ class ValueReader(HighPrecisionOptional):
             # If we can't convert to number, return the unconverted str.
             return vals
 
-        # Now we know `vals` is a numeric-convertible str. Convert it:
+        # Now we know `vals` is a numeric-convertible str. Convert it
+        # (without going through float, where possible, since that
+        # would lose digits of long numbers):
+        try:
+            return int(vals) #@IgnoreException
+        except ValueError:
+            # Use high-precision numeric type if supported:
+            num_val = self._parse_float(vals)
         # Prefer int representation if possible:
-        if float_val % 1 == 0:
-            # `float_val % 1` is `NaN` for infinite or NaN values,
-            # and is a non-zero number for any floating-point value.
+        if not math.isinf(float_val) and num_val % 1 == 0:
+            # `num_val % 1` is `NaN` for NaN values, and is a non-zero
+            # number for any non-integer value.
             # Thus, if this test passes, we have an integer value.
-            return int(float_val)
-        # Use high-precision numeric type if supported:
-        if self.high_precision is not None:
-            return self.high_precision(vals)
-        # Otherwise, use float:
-        return float_val
+            return int(num_val)
+        return num_val
 
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
-- 
2.43.0


From 814a9584b0f876f5078749230690650a7fe40a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 63/87] fix: deleting a value read from file (del reader.name)
 always raised KeyError

---
 forecaster/value_reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 6420ea8..d4d5855 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -59,8 +59,6 @@ class ValueReaderAttribute(object):
     def __delete__(self, obj):
         # Remove the value from the `values` dict:
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From a85342718b6ea357130ba0e20114b505c8ed19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 64/87] fix: write(vals=ValueReader), as documented, raised
 TypeError

---
 forecaster/value_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index d4d5855..cb75feb 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -362,6 +362,8 @@ class ValueReader(HighPrecisionOptional):
         # If no values are provided, use this object's `values`:
         if vals is None:
             vals = self.values
+        elif isinstance(vals, ValueReader):
+            vals = vals.values
 
         filename = resolve_path(filename)
 
-- 
2.43.0


From 1b21afa9bf0323e18a04fa557a4ed263ef266b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:00 +0000
Subject: [PATCH 65/87] fix: writing values that cannot be serialized destroyed
 the existing file before raising

---
 forecaster/value_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index cb75feb..7752ba2 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -385,6 +385,10 @@ class ValueReader(HighPrecisionOptional):
             encoder_args['high_precision_serialize'] = (
                 self.high_precision_serialize)
 
+        # Serialize before opening the file, so that values which cannot
+        # be serialized do not cause an existing file to be truncated:
+        text = json.dumps(vals, cls=cls, **encoder_args)
+
         # Write the serialized values to file:
         with open(filename, "w", encoding="utf-8") as file:
-            json.dump(vals, file, cls=cls, **encoder_args)
+            file.write(text)
-- 
2.43.0


From a5cce831ffe8dfd5fb8d4538d3fb3dd3e8088dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 66/87] fix: values read in high precision with fractional keys
 (e.g. tax brackets), or with both numeric and text keys, could not be written
 back (TypeError)

---
 forecaster/value_reader.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 7752ba2..c8cd386 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -3,6 +3,7 @@
 import os
 import json
 import math
+import numbers
 from forecaster.utility.precision import HighPrecisionOptional
 
 INFINITY = float('inf')
@@ -350,6 +351,37 @@ class ValueReader(HighPrecisionOptional):
             return int(num_val)
         return num_val
 
+    def _prepare_keys(self, vals):
+        """ Sorts each dict in a JSON tree by its keys.
+
+        This is needed because `json` can sort only keys which are all
+        comparable (i.e. it can't sort a mix of numbers and str) and
+        doesn't call the encoder to serialize keys. High-precision keys
+        are converted to str by this method.
+        """
+        if isinstance(vals, (list, tuple)):
+            return [self._prepare_keys(val) for val in vals]
+        if not isinstance(vals, dict):
+            return vals
+
+        def sort_key(key):
+            """ Sorts numbers (by value) before all other keys. """
+            if isinstance(key, numbers.Number):
+                return (0, key)
+            return (1, str(key))
+
+        def prepare_key(key):
+            """ Converts high-precision numbers to str. """
+            if (
+                    self.high_precision is not None
+                    and isinstance(key, type(self.high_precision(0)))):
+                return (self.high_precision_serialize or str)(key)
+            return key
+
+        return {
+            prepare_key(key): self._prepare_keys(vals[key])
+            for key in sorted(vals, key=sort_key)}
+
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
 
@@ -372,7 +404,7 @@ class ValueReader(HighPrecisionOptional):
             'ensure_ascii': True, # Escape non-ASCII characters
             'allow_nan': True, # Required to support float('inf')
             'indent': 2, # Pretty-print with indenting,
-            'sort_keys': True # Sort to make it easier for humans to read
+            'sort_keys': False # Keys are sorted by _prepare_keys
         }
 
         # Use the custom encoder provided by client code, if any:
@@ -385,6 +417,9 @@ class ValueReader(HighPrecisionOptional):
             encoder_args['high_precision_serialize'] = (
                 self.high_precision_serialize)
 
+        # Sort keys to make it easier for humans to read:
+        vals = self._prepare_keys(vals)
+
         # Serialize before opening the file, so that values which cannot
         # be serialized do not cause an existing file to be truncated:
         text = json.dumps(vals, cls=cls, **encoder_args)
-- 
2.43.0


From d4a69a980edc09a1327940e890c5d3d920c54677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 67/87] fix: changing a setting's default in place (e.g.
 settings.saving_weights['RRSP'] = 5) changed it for all other Settings
 objects

---
 forecaster/value_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index c8cd386..92e938d 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -1,5 +1,6 @@
 """ Provides a class for reading stored values from files. """
 
+import copy
 import os
 import json
 import math
@@ -48,7 +49,10 @@ class ValueReaderAttribute(object):
                 self.default is not None and
                 hasattr(obj, 'use_defaults') and
                 obj.use_defaults):
-            return self.default
+            # Each object gets its own copy of the default, so that
+            # changes to (e.g.) a dict don't affect other objects:
+            return obj.default_values.setdefault(
+                self.name, copy.deepcopy(self.default))
         # Return the value read in from file (or raise a KeyError if
         # it's missing and there's no default):
         return obj.values[self.name]
@@ -202,6 +206,7 @@ class ValueReader(HighPrecisionOptional):
 
         # Set up instance attributes:
         self.values = {}
+        self.default_values = {}
         self.encoder_cls = encoder_cls
         self.decoder_cls = decoder_cls
         self.use_defaults = use_defaults
-- 
2.43.0


From ed160df7ce95d604e1a0ab61693551d29e2b25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 68/87] fix: text such as '1E+30' raised InvalidOperation when
 read in high precision (follow-up of b92498e)

---
 forecaster/value_reader.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 92e938d..1db1b57 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -348,11 +348,9 @@ class ValueReader(HighPrecisionOptional):
         except ValueError:
             # Use high-precision numeric type if supported:
             num_val = self._parse_float(vals)
-        # Prefer int representation if possible:
-        if not math.isinf(float_val) and num_val % 1 == 0:
-            # `num_val % 1` is `NaN` for NaN values, and is a non-zero
-            # number for any non-integer value.
-            # Thus, if this test passes, we have an integer value.
+        # Prefer int representation if possible (infinite or NaN values
+        # can't be converted):
+        if math.isfinite(float_val) and int(num_val) == num_val:
             return int(num_val)
         return num_val
 
-- 
2.43.0


From 4e5d7fe4c2104e42a0ae8d06bc6824034749571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 69/87] fix: a high-precision Debt with the default accelerated
 payment raised TypeError when its largest inflows were requested; plain
 payments weren't converted

---
 forecaster/accounts/debt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/debt.py b/forecaster/accounts/debt.py
index 4e13510..ebbdff9 100644
--- a/forecaster/accounts/debt.py
+++ b/forecaster/accounts/debt.py
@@ -77,7 +77,7 @@ class Debt(Account):
 
     @minimum_payment.setter
     def minimum_payment(self, val):
-        self._minimum_payment = val # Money value
+        self._minimum_payment = self._convert_payment(val) # Money value
 
     @property
     def accelerated_payment(self):
@@ -86,7 +86,13 @@ class Debt(Account):
 
     @accelerated_payment.setter
     def accelerated_payment(self, val):
-        self._accelerated_payment = val # Money value
+        self._accelerated_payment = self._convert_payment(val) # Money value
+
+    def _convert_payment(self, val):
+        """ Converts a payment to high-precision, if it's provided. """
+        if val is None:
+            return None
+        return self.precision_convert(val)
 
     @property
     def min_inflow_limit(self):
-- 
2.43.0


From c37a89baa3866574e034c9d322c82b6c3c7f2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 70/87] fix: time_to_balance raised TypeError for
 high-precision accounts with a rate of return

---
 forecaster/accounts/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index e7f7aa1..77724da 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -116,11 +116,13 @@ def accumulation_function_inverse(accum, rate, nper=1, *, high_precision=None):
     if nper is None:
         # math.exp(rate * t) throws a warning, since there's an
         # implicit float-Decimal multiplication.
-        timing = math.log(accum, high_precision(math.e)) / rate
+        timing = high_precision(math.log(accum)) / rate
     # Otherwise use the discrete formula: a=(1+r/n)^nt
     # Derive from this t=log(a,1+r/n)/n
     else:
-        timing = math.log(accum, high_precision(1) + rate / nper) / nper
+        # (`math.log` always returns a `float`, so convert the result.)
+        timing = high_precision(
+            math.log(accum, high_precision(1) + rate / nper)) / nper
 
     return timing
 
-- 
2.43.0


From 4a8a5705383a9ff1c99edfda25669afa75c86bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 71/87] fix: the 'other' portion of a high-precision allocation
 was an ordinary int

---
 forecaster/strategy/allocation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index cede764..2ea4bd8 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -160,7 +160,8 @@ class AllocationStrategy(Strategy):
         target = (self.target - age) / 100
 
         # Bonds is simply whatever isn't in equities
-        return AssetAllocation(target, 1 - target, 0)
+        return AssetAllocation(
+            target, 1 - target, self.precision_convert(0))
 
     @strategy_method('Transition to constant')
     def strategy_transition_to_const(
@@ -180,19 +181,23 @@ class AllocationStrategy(Strategy):
         # If retirement is outside our risk transition window (e.g. if
         # it's more than 20 years away), maximize stock holdings.
         if age <= retirement_age - self.risk_transition_period:
-            return AssetAllocation(self.max_equity, 1 - self.max_equity, 0)
+            return AssetAllocation(
+                self.max_equity, 1 - self.max_equity,
+                self.precision_convert(0))
         # If we've hit retirement, keep equity allocation constant at
         # our target
         elif age >= retirement_age:
             min_equity = max(self.min_equity, self.target)
-            return AssetAllocation(min_equity, 1 - min_equity, 0)
+            return AssetAllocation(
+                min_equity, 1 - min_equity, self.precision_convert(0))
         # Otherwise, smoothly move from max_equity to target over
         # the risk_transition_period
         target = self.target + \
             (self.max_equity - self.target) * \
             (retirement_age - age) / self.risk_transition_period
 
-        return AssetAllocation(target, 1 - target, 0)
+        return AssetAllocation(
+            target, 1 - target, self.precision_convert(0))
 
     def rate_function(self, person, scenario):
         """ A rate function usable by Person or Account objects.
-- 
2.43.0


From 7234fbf791c3654c2488eadb6b0eb36f420f735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 72/87] fix: high-precision taxes had payment and refund
 timings with ordinary floats, so that carrying over a refund raised TypeError

---
 forecaster/tax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 37d946c..6222dc9 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -284,7 +284,8 @@ class Tax(HighPrecisionOptional):
     @payment_timing.setter
     def payment_timing(self, val):
         """ Sets `payment_timing`. """
-        self._payment_timing = Timing(val)
+        self._payment_timing = Timing(
+            val, high_precision=self.high_precision)
 
     @property
     def refund_timing(self):
@@ -294,7 +295,8 @@ class Tax(HighPrecisionOptional):
     @refund_timing.setter
     def refund_timing(self, val):
         """ Sets `refund_timing`. """
-        self._refund_timing = Timing(val)
+        self._refund_timing = Timing(
+            val, high_precision=self.high_precision)
 
     def marginal_bracket(self, taxable_income, year):
         """ The top tax bracket that taxable_income falls into. """
-- 
2.43.0


From 60dd516dbc38fb45e8138e6e4e372fb8f0294283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 73/87] fix: timings such as 0 became floats in high precision,
 so that withdrawals timed at the start of the year raised TypeError

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index ea25303..d7f4896 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -415,6 +415,8 @@ def when_conv(when, *, high_precision=None):
             when = one
         elif when == 'start':
             when = zero
+    elif high_precision is not None:
+        when = high_precision(when)
 
     if when > one or when < zero:
         raise ValueError("When: 'when' must be in [0,1]")
-- 
2.43.0


From 315c8590906451963be3cb61e56c0aa34eacdafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 74/87] fix: the setting living_expenses_inflation_adjust had
 no effect: living expenses were always adjusted for inflation

---
 forecaster/forecaster.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..72bf430 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -90,7 +90,7 @@ DEFAULTTYPES = {
 # This maps certain parameters that need special init logic to
 # the method name that provides that logic.
 DEFAULTBUILDERS = {
-    # str(Parameter.TAX_TREATMENT): "build_tax_treatment"
+    str(Parameter.LIVING_EXPENSES_STRATEGY): "build_living_expenses_strategy"
 }
 
 # Types that can receive the callable argument `high_precision` at init:
@@ -337,7 +337,8 @@ class Forecaster(HighPrecisionOptional):
         # `_special_builder` to False.)
         if _special_builder and param_name in self.default_builders:
             return getattr(
-                self, self.default_builders[param_name])(*args, **kwargs)
+                self, self.default_builders[param_name])(
+                    *args, param_type=param_type, memo=memo, **kwargs)
         # For everything else, use the user-provided defaults and fill
         # in the gaps with the settings-provided defaults:
         if param_name in self.default_values:
@@ -477,6 +478,20 @@ class Forecaster(HighPrecisionOptional):
             param_name, *args, param_type=param_type, memo=memo, **kwargs)
         setattr(self, param_name, param)
 
+    def build_living_expenses_strategy(self, *args, **kwargs):
+        """ Builds a living expenses strategy.
+
+        This works the same way as `build_param`, except that living
+        expenses aren't adjusted for inflation (unless that's requested
+        explicitly) if `settings.living_expenses_inflation_adjust` is
+        False.
+        """
+        if not self.settings.living_expenses_inflation_adjust:
+            kwargs.setdefault("inflation_adjust", None)
+        return self.build_param(
+            Parameter.LIVING_EXPENSES_STRATEGY, *args,
+            _special_builder=False, **kwargs)
+
     def build_allocation_strategy(self, *args, **kwargs):
         """ Convenience method to build an allocation strategy.
 
-- 
2.43.0


From 28625bbf7c7f68de701eb100755fc6e989595c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 75/87] fix: the setting debt_payment_strategy had no effect:
 debts were always repaid by the Avalanche method

---
 forecaster/forecaster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 72bf430..a4ea6fa 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -58,7 +58,8 @@ DEFAULTVALUES = {
         "inflation_adjust": "scenario.inflation_adjust"},
     str(Parameter.SAVING_STRATEGY): {
         "strategy": "settings.saving_strategy",
-        "weights": "settings.saving_weights"},
+        "weights": "settings.saving_weights",
+        "debt_strategy": "settings.debt_payment_strategy"},
     str(Parameter.WITHDRAWAL_STRATEGY): {
         "strategy": "settings.withdrawal_strategy",
         "weights": "settings.withdrawal_weights"},
-- 
2.43.0


From 599efa2478177a45bf1fc587f51207bbece0346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 76/87] fix: build_allocation_strategy always raised TypeError

---
 forecaster/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index a4ea6fa..29e8c6f 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -507,5 +507,5 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
-            _special_builder=False, **kwargs)
+            Parameter.ALLOCATION_STRATEGY, *args,
+            param_type=AllocationStrategy, _special_builder=False, **kwargs)
-- 
2.43.0


From e7307dc849729c9d19d0b834bd26490da60b7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 77/87] fix: parameters couldn't be built with positional
 arguments (TypeError) though these are documented

---
 forecaster/forecaster.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 29e8c6f..2cedd06 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -2,6 +2,7 @@
 
 from copy import copy, deepcopy
 from functools import reduce
+from inspect import signature
 from enum import Enum
 from forecaster.forecast import (
     Forecast, IncomeForecast, LivingExpensesForecast,
@@ -340,12 +341,17 @@ class Forecaster(HighPrecisionOptional):
             return getattr(
                 self, self.default_builders[param_name])(
                     *args, param_type=param_type, memo=memo, **kwargs)
+        if param_type is None:
+            param_type = self.default_types[param_name]
         # For everything else, use the user-provided defaults and fill
         # in the gaps with the settings-provided defaults:
         if param_name in self.default_values:
             # Get the default mapping for this parameter:
             # (We copy it to avoid mutating it)
             default_values = copy(self.default_values[param_name])
+            # Positional args don't need defaults:
+            for key in signature(param_type).bind_partial(*args).arguments:
+                default_values.pop(key, None)
             # Replace each value with the value of the same-named
             # attribute of the `Forecaster` object:
             for key, value in default_values.items():
@@ -357,8 +363,6 @@ class Forecaster(HighPrecisionOptional):
         # Build a new object (note that we don't set the corresponding
         # attribute of Forecaster; if this is called again, we'll build
         # a new object)
-        if param_type is None:
-            param_type = self.default_types[param_name]
         # Pass `high_precision` as a kwarg if the type supports it:
         is_high_precision_type = any(
             issubclass(param_type, high_precision_type)
-- 
2.43.0


From 63fe81830a5bacff556ed15b4e29e5bac775371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 78/87] fix: the same forecast run twice gave different
 results, since people and accounts were processed in the arbitrary order of
 sets

---
 forecaster/forecast/living_expenses.py      |  6 +++--
 forecaster/ledger/__init__.py               |  2 +-
 forecaster/ledger/base.py                   | 27 +++++++++++++++++++++
 forecaster/strategy/transaction/node.py     |  9 +++++--
 forecaster/strategy/transaction/strategy.py |  9 ++++---
 forecaster/strategy/transaction/util.py     | 12 ++++-----
 6 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index 3d3705b..5e723c9 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -1,6 +1,6 @@
 """ Provides a LivingExpensesForecast class for use by Forecast. """
 
-from forecaster.ledger import recorded_property_cached
+from forecaster.ledger import recorded_property_cached, sort_ledgers
 from forecaster.forecast.subforecast import SubForecast
 
 class LivingExpensesForecast(SubForecast):
@@ -59,7 +59,9 @@ class LivingExpensesForecast(SubForecast):
             income_weights = {
                 person: self.precision_convert(1) / len(self.people)
                 for person in self.people}
-        for person in self.people:
+        # (Earlier transactions can affect the timing of later ones, so
+        # be sure to go through people in a definite order.)
+        for person in sort_ledgers(self.people):
             self.add_transaction(
                 self.living_expenses * income_weights[person],
                 timing=person.payment_timing,
diff --git a/forecaster/ledger/__init__.py b/forecaster/ledger/__init__.py
index 46eaf06..734954a 100644
--- a/forecaster/ledger/__init__.py
+++ b/forecaster/ledger/__init__.py
@@ -7,7 +7,7 @@ __all__ = [
 ]
 
 from forecaster.ledger.base import (
-    Ledger, LedgerType, TaxSource
+    Ledger, LedgerType, TaxSource, sort_ledgers
 )
 from forecaster.ledger.recorded_property import (
     recorded_property, recorded_property_cached
diff --git a/forecaster/ledger/base.py b/forecaster/ledger/base.py
index 7800dda..5424e0b 100644
--- a/forecaster/ledger/base.py
+++ b/forecaster/ledger/base.py
@@ -1,6 +1,7 @@
 """ Module providing the Ledger base type and associated classes. """
 
 import inspect
+from itertools import count
 from forecaster.ledger.recorded_property import (
     recorded_property, recorded_property_cached
 )
@@ -49,8 +50,14 @@ class Ledger(HighPrecisionOptional, metaclass=LedgerType):
         initial_year (int): The initial year for the object.
         this_year (int): The current year for the object. Incremented
             with each call to next_year()
+        creation_order (int): A number that's larger for objects created
+            later. Copies of an object share its number. This allows for
+            sets of objects to be put in a definite order.
     """
 
+    # Numbers every object in order of creation (see `__init__`):
+    _creation_counter = count()
+
     # This class is intended for subclassing. It implements only magic
     # methods and a `next_year` method that manage recorded_property
     # members. That's all that's necessarly for this class, and it is
@@ -74,6 +81,7 @@ class Ledger(HighPrecisionOptional, metaclass=LedgerType):
         """
         super().__init__(**kwargs)
 
+        self.creation_order = next(Ledger._creation_counter)
         self.initial_year = int(initial_year)
         self.this_year = self.initial_year
         self.inputs = inputs if inputs is not None else {}
@@ -117,6 +125,25 @@ class Ledger(HighPrecisionOptional, metaclass=LedgerType):
         for prop in self._recorded_properties_cached:
             prop.fdel(obj=self)
 
+def sort_ledgers(ledgers):
+    """ Sorts `Ledger` objects (e.g. people, accounts) by creation order.
+
+    People and accounts are often provided in sets, the order of which
+    is arbitrary (and differs each time that a `Forecast` is run).
+    Logic that's sensitive to order should iterate over the output of
+    this method instead so that its results are reproducible.
+
+    Args:
+        ledgers (Iterable[Any]): Objects to be sorted. Objects that
+            don't provide `creation_order` are left in order, before any
+            that do.
+
+    Returns:
+        list[Any]: The objects, in order.
+    """
+    return sorted(
+        ledgers, key=lambda ledger: getattr(ledger, 'creation_order', -1))
+
 class TaxSource(Ledger):
     """ An object that can be considered when calculating taxes.
 
diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index 0a95fa6..dfafb8d 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -120,8 +120,13 @@ class TransactionNode:
                 but which hasn't overloaded this method to deal with it.
         """
         if isinstance(self.children, dict):
-            # Preserve the weights (values) of `node.children`:
-            return {child: self.children[child] for child in subset}
+            if any(child not in self.children for child in subset):
+                raise KeyError('subset contains element not in children.')
+            # Preserve the weights (values) of `node.children` (and
+            # their order; the order of `subset` might be arbitrary):
+            return {
+                child: weight for child, weight in self.children.items()
+                if child in subset}
         if isinstance(self.children, (list, tuple)):
             # Preserve the ordering of `node.children`:
             if any(child not in self.children for child in subset):
diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index bb33e82..a759d2b 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -2,6 +2,7 @@
 
 from collections import defaultdict
 from forecaster.accounts.debt import Debt
+from forecaster.ledger import sort_ledgers
 from forecaster.strategy.base import Strategy, strategy_method
 from forecaster.strategy.debt_payment.util import (
     PRIORITY_METHODS, AVALANCHE_KEY)
@@ -196,8 +197,10 @@ class TransactionStrategy(Strategy):
             return next(iter(group))
         # If the group has more than one member, use a weighted subtree,
         # with all accounts getting equal weight:
+        # (Sort the accounts, since the results shouldn't depend on the
+        # arbitrary order of a set.)
         else:
-            return {account: 1 for account in group}
+            return {account: 1 for account in sort_ledgers(group)}
 
     def _weight_account_groups(self, accounts):
         """ Groups accounts by their weights.
@@ -217,7 +220,7 @@ class TransactionStrategy(Strategy):
         account_keys = defaultdict(set)
         # Build a map of key: set[Account] pairs, where each set is the
         # set of accounts with the same key.
-        for account in accounts:
+        for account in sort_ledgers(accounts):
             # Find the key in `self.weights` that best matches this
             # account (or None if no key is appropriate):
             key = self._get_weight_key(account)
@@ -297,7 +300,7 @@ class TransactionStrategy(Strategy):
             # list (or other priority tree):
             priority_method = PRIORITY_METHODS[self.debt_strategy]
             # Use it to generate a priority tree:
-            priority = priority_method(debts)
+            priority = priority_method(sort_ledgers(debts))
         else:
             priority = None
         return priority
diff --git a/forecaster/strategy/transaction/util.py b/forecaster/strategy/transaction/util.py
index 3913b06..ca70b9d 100644
--- a/forecaster/strategy/transaction/util.py
+++ b/forecaster/strategy/transaction/util.py
@@ -136,27 +136,27 @@ def _get_accounts(node, accounts=None):
 
     Args:
         node (TransactionNode): The root of a (sub)tree.
-        accounts (set[Any]): The set of all accounts found so far.
+        accounts (dict[Any, None]): All accounts found so far.
             Used by this method on recursion; if passed in by client
             code, beware that it will be mutated!
 
     Returns:
-        set[Any]: A collection of objects (which can be of any type)
-        wrapped by lead nodes under `node`.
+        KeysView[Any]: A collection of unique objects (which can be of
+        any type) wrapped by leaf nodes under `node`, in tree order.
     """
     # Set defaults (for recursion)
     if accounts is None:
-        accounts = set()
+        accounts = {}
 
     # If this is a leaf, record its account:
     if node.is_leaf_node():
-        accounts.add(node.source)
+        accounts[node.source] = None
     # Otherwise, recurse onto children:
     else:
         for child in node.children:
             _get_accounts(child, accounts)
 
-    return accounts
+    return accounts.keys()
 
 def _get_transactions(
         account, limit, timing, transaction_methods=None, total=None):
-- 
2.43.0


From a226af1037fc60048c45c6216fc4b2c79c60367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 79/87] fix: assigning an owner that is not a Person raised
 TypeError but had already removed the account from its owner's accounts

---
 forecaster/accounts/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 60e678c..064af07 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -182,15 +182,16 @@ class Account(TaxSource):
     @owner.setter
     def owner(self, val):
         """ Sets the account's owner. """
+        # Do basic type-checks before changing anything:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Account: owner must be of type Person.')
+
         # Unregister this account from any former owner:
         if self.owner is not None:
             self.owner.accounts.remove(self)
 
-        # For new owners, do basic type-checks and then
-        # bind the account to the owner:
+        # For new owners, bind the account to the owner:
         if val is not None:
-            if not isinstance(val, Person):
-                raise TypeError('Account: owner must be of type Person.')
             # Register with new owner:
             val.accounts.add(self)
 
-- 
2.43.0


From 75f6281705d87c3a516eec65635915e5c8434ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 80/87] fix: advancing a pension plan whose contributor was
 still in an earlier year raised KeyError: the contributor was brought up to
 date only after room was computed from their income

---
 forecaster/canada/accounts/registered_account.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 32adf09..a509d6c 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -132,6 +132,10 @@ class RegisteredAccount(LinkedLimitAccount):
         # Only call next_contribution_room once for the whole group
         # per year. We do this in the first account to be called.
         if first_account:
+            # Next year's room can depend on the contributor's position
+            # this year, so ensure they've been brought up to this year:
+            while self.contributor.this_year < self.this_year:
+                self.contributor.next_year()
             # If the contribution room for next year is already known
             # (e.g. via an `input` dict), use that:
             # pylint: disable=no-member
-- 
2.43.0


From 66df476e255641190e346a5a8937c0661631982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 81/87] fix: extending an empty time-series raised KeyError:
 None instead of the intended ValueError

---
 forecaster/utility/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/utility/inflation.py b/forecaster/utility/inflation.py
index fe56139..c3f2b1d 100644
--- a/forecaster/utility/inflation.py
+++ b/forecaster/utility/inflation.py
@@ -91,7 +91,7 @@ def extend_inflation_adjusted(vals, inflation_adjust, target_year):
     # If one of the above searches worked, return an inflation-adjusted
     # value (or dict/list of values, depending on what the values of
     # `vals` are)
-    if base_year != target_year:
+    if base_year is not None:
         val = vals[base_year]
         if isinstance(val, dict):
             return {
-- 
2.43.0


From e5aee31920c995002e1f88caed122b111785c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 82/87] fix: assigning retirement_date (or retirement_age) None
 raised NotImplementedError but had already erased the retirement date

---
 forecaster/person.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 57cb42c..921cd91 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -201,7 +201,6 @@ class Person(TaxSource):
                 Floating retirement dates are not yet implemented.
         """
         if val is None:
-            self._retirement_date = None
             # NOTE: Delete this error when floating retirement dates
             # are implemented
             raise NotImplementedError(
-- 
2.43.0


From de24cf4368b0435caaf055eb6bd42c121da5aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 83/87] fix: constructing an account with a rejected
 compounding frequency or timing left a half-built account among its owner's
 accounts

---
 forecaster/accounts/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 064af07..73c5dd5 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -164,7 +164,6 @@ class Account(TaxSource):
         self._nper = None
 
         # Set the various property values based on inputs:
-        self.owner = owner
         self.balance = balance # Money value
         self.rate_callable = rate
         self.nper = frequency_conv(nper)
@@ -172,6 +171,8 @@ class Account(TaxSource):
             self.default_timing = Timing(high_precision=high_precision)
         else:
             self.default_timing = default_timing
+        # Register with the owner only once all inputs are accepted:
+        self.owner = owner
         # NOTE: returns is calculated lazily
 
     @property
-- 
2.43.0


From e8d33e735e97e43fca6f947df3c2f6c46459ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:12 +0000
Subject: [PATCH 84/87] fix: Tax shares the mappings of brackets with its
 caller, so that changing them afterwards changes (part of) the tax on every
 later call

---
 forecaster/tax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 6222dc9..7d03948 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -318,6 +318,8 @@ class Tax(HighPrecisionOptional):
         Also generates an `accum` dict based on the tax brackets.
         """
         year = int(year)
+        # Copy brackets (to avoid external mutation):
+        brackets = dict(brackets)
         # Discard anything derived from the years listed until now:
         for other in set(self._tax_brackets) - self._listed_years:
             del self._tax_brackets[other]
-- 
2.43.0


From b6c3f0c0437f10bd208ccbd2c011f7a0ddccaff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 85/87] fix: reading a step's totals before computing it (or
 after undoing it) froze them: the computed year then reported stale savings,
 debt payments, withdrawals or tax

---
 forecaster/forecast/subforecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index cd9dbb3..e9a7dd6 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -187,6 +187,9 @@ class SubForecast(Ledger):
         # under whatever was done previously:
         if self._call_invoked:
             self.undo_transactions()
+        # Values may have been cached (by reading them) before now;
+        # they don't reflect the effects of this call:
+        self.clear_cache()
         # Keep track of the fact that this method has been called again:
         self._call_invoked = True
 
-- 
2.43.0


From 3a8f6683db1a5e2728bdbbcdde849f5fa1a899ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:32 +0000
Subject: [PATCH 86/87] fix: a person's net income kept its first value when
 gross income or the tax treatment was set afterwards within the year, so that
 net income wasn't gross income less tax withheld

---
 forecaster/person.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 921cd91..28dbab7 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -150,8 +150,6 @@ class Person(TaxSource):
 
         # Now provide initial-year values for recorded properties:
         self.gross_income = gross_income # Money value
-        # NOTE: Be sure to set up tax_treatment before calling tax_withheld
-        self.net_income = self.gross_income - self.tax_withheld
 
         # Finally, build an empty set for accounts to add themselves to
         # and a `data` dict for accounts to write unstructed data to.
@@ -346,7 +344,7 @@ class Person(TaxSource):
     # Pylint gets confused by attributes added by metaclass.
     # This method isn't hidden in __init__; it's assigned to (by a
     # setter defined via metaclass)
-    @recorded_property_cached
+    @recorded_property
     def net_income(self):
         """ The `Person`'s gross income for this year. """
         gross_income = self.gross_income
-- 
2.43.0


From 0e32cea9d24357febb0bff2fb292a917058fbe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:55 +0000
Subject: [PATCH 87/87] fix: a transfer out of a growing account was timed as
 if transactions undone before still took place (recomputing a step could
 place its flows elsewhere)

---
 forecaster/forecast/subforecast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index e9a7dd6..a0771a9 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -441,7 +441,10 @@ class SubForecast(Ledger):
             is provided, the keys may include additional times. Values
             are amounts of transactions at the corresponding time.
         """
-        keys = account.keys() | {when}  # Always include `when`
+        # Nothing happens at times where transactions have been undone
+        # (i.e. where they sum to zero), so leave those times out:
+        keys = {t for t in account.keys() if account[t] != 0}
+        keys.add(when)  # Always include `when`
         # Use Account logic to determine how much is available at the
         # time of each existing transaction and also at `when`:
         accum = {
-- 
2.43.0

