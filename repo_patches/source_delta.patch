From bf6122eaf87c44a228695201f9b24ad188f1ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 01/57] fix: looking up an absent child account gives None
 instead of raising IndexError

---
 auxi/modelling/financial/des.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index e8b530e..3b8ec01 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -56,7 +56,11 @@ class GeneralLedgerAccount(NamedObject):
         super(GeneralLedgerAccount, self).__init__(name, description)
 
     def __getitem__(self, key):
-        return [a for a in self.accounts if a.name == key][0]
+        items = [a for a in self.accounts if a.name == key]
+        if len(items) == 0:
+            return None
+        else:
+            return items[0]
 
     def __missing__(self, key):
         return None
-- 
2.43.0


From e2aced745f2472155a26e68d5ebb4aee438929c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 02/57] fix: report general ledger structures with accounts
 that have no number

---
 auxi/modelling/financial/reporting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 73eb595..23f1c45 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -56,11 +56,11 @@ class GeneralLedgerStructure(Report):
 
     def _gl_accounts_to_table_(self, table, account, prefix=''):
         table.append([account.account_type.name,
-                      prefix + account.number,
+                      prefix + (account.number or ''),
                       account.name, account.description])
-        for acc in sorted(account.accounts, key=lambda a: a.number):
+        for acc in sorted(account.accounts, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(
-                table, acc, account.number + '/')
+                table, acc, (account.number or '') + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0


From de6061a52587f5d668891e8317778ba51d86c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 03/57] fix: income statement sign of the first credit to an
 expense and first debit to a revenue account

---
 auxi/modelling/financial/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 23f1c45..20f7848 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -276,14 +276,14 @@ class IncomeStatement(Report):
                         if t.cr_account in summedExpenses:
                             summedExpenses[t.cr_account] -= t.amount
                         else:
-                            summedExpenses[t.cr_account] = t.amount
+                            summedExpenses[t.cr_account] = -t.amount
                 if not t.is_closing_cr_account and \
                    not t.is_closing_dt_account and t.dt_account != "":
                     if dt_account_type == AccountType.revenue:
                         if t.dt_account in summedIncome:
                             summedIncome[t.dt_account] -= t.amount
                         else:
-                            summedIncome[t.dt_account] = t.amount
+                            summedIncome[t.dt_account] = -t.amount
                     elif dt_account_type == AccountType.expense:
                         if t.dt_account in summedExpenses:
                             summedExpenses[t.dt_account] += t.amount
-- 
2.43.0


From 214c62f81acbffb55e5c0bb3fd055ce49c93a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 04/57] fix: report ranges given as dates or date strings work
 on ledgers with datetimes and vice versa

---
 auxi/modelling/financial/reporting.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 20f7848..e1f73f1 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -31,6 +31,16 @@ class ReportType(Enum):
     cash_flow = 4
 
 
+def _on_or_before(first, second):
+    # A date without a time denotes the whole day.
+    if isinstance(first, datetime) != isinstance(second, datetime):
+        if isinstance(first, datetime):
+            first = first.date()
+        else:
+            second = second.date()
+    return first <= second
+
+
 class Report(ReportBase):
     """
     Base class for reports.
@@ -105,7 +115,8 @@ class TransactionList(Report):
         for t in sorted(tx_list, key=lambda v: v.tx_date):
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if _on_or_before(self.start_date, t.tx_date) and \
+               _on_or_before(t.tx_date, self.end_date):
                 if t.source.endswith(t.name):
                     name = ''
                 else:
@@ -142,7 +153,7 @@ class BalanceSheet(Report):
         summedEquity = {}
 
         for t in self.data_source.transactions:
-            if t.tx_date <= self.end_date:
+            if _on_or_before(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if cr_account_type == AccountType.asset:
@@ -262,7 +273,8 @@ class IncomeStatement(Report):
         for t in self.data_source.transactions:
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if _on_or_before(self.start_date, t.tx_date) and \
+               _on_or_before(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if not t.is_closing_cr_account and \
-- 
2.43.0


From 592abb6b4359e93fdd192940a706447dfd190e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 05/57] fix: reports for a component leave out siblings whose
 name extends it and accept transactions without source

---
 auxi/modelling/financial/reporting.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index e1f73f1..765b6a8 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -41,6 +41,13 @@ def _on_or_before(first, second):
     return first <= second
 
 
+def _is_at_or_below(source, path):
+    if source is None:
+        source = ""
+    return path == "" or source == path or \
+        source.startswith(path.rstrip('/') + '/')
+
+
 class Report(ReportBase):
     """
     Base class for reports.
@@ -113,11 +120,11 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
-            if not t.source.startswith(self.component_path):
+            if not _is_at_or_below(t.source, self.component_path):
                 continue
             if _on_or_before(self.start_date, t.tx_date) and \
                _on_or_before(t.tx_date, self.end_date):
-                if t.source.endswith(t.name):
+                if t.source is not None and t.source.endswith(t.name):
                     name = ''
                 else:
                     name = t.name
@@ -271,7 +278,7 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not t.source.startswith(self.component_path):
+            if not _is_at_or_below(t.source, self.component_path):
                 continue
             if _on_or_before(self.start_date, t.tx_date) and \
                _on_or_before(t.tx_date, self.end_date):
-- 
2.43.0


From 4c2d11bd253c96f2e7ccf3f533ec411ad2958029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 06/57] fix: activities recalculate their schedule for each run
 and honour starts after the run and ends before the start

---
 auxi/modelling/business/structure.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 01704da..7c4e292 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -88,24 +88,29 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
-        if self.start_period_ix == -1 and self.start_datetime != datetime.min:
+        if self.start_datetime != datetime.min:
             # Set the Start period index
+            # An activity that starts after the last period does not execute.
+            self.start_period_ix = period_count
+            if clock.get_datetime_at_period_ix(period_count - 1) == \
+               self.start_datetime:
+                self.start_period_ix = period_count - 1
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
         if self.start_period_ix == -1:
             self.start_period_ix = 0
-        if self.period_count == -1 and self.end_datetime != datetime.max:
-            # Set the Start date
-            for i in range(0, period_count):
-                if clock.get_datetime_at_period_ix(i) > self.end_datetime:
-                    self.period_count = i - self.start_period_ix
-                    break
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
         else:
             self.end_period_ix = self.start_period_ix + period_count
+        if self.period_count == -1 and self.end_datetime != datetime.max:
+            # Set the end period index
+            for i in range(0, period_count):
+                if clock.get_datetime_at_period_ix(i) > self.end_datetime:
+                    self.end_period_ix = i
+                    break
 
     def get_referenced_accounts(self):
         """
-- 
2.43.0


From 6dc410a01b437432617c48a129becdbdcfb4bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 07/57] fix: new entities get their model's name in their path

---
 auxi/modelling/business/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 0dffa67..41450de 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -74,6 +74,7 @@ class TimeBasedModel(NamedObject):
         """
 
         new_entity = Entity(name, gl_structure, description=description)
+        new_entity.set_parent_path(self.name)
         self.entities.append(new_entity)
         return new_entity
 
-- 
2.43.0


From b699bfe030fd16d09cc56ac6c3f789c6e15873d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 08/57] fix: loans without interest are repaid in equal
 instalments instead of dividing by zero

---
 auxi/modelling/business/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4b5cdb7..1bc4443 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -193,6 +193,12 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
+        if self.duration == 0:
+            self._monthly_payment = 0.0
+            return
+        if int_rate == 0:
+            self._monthly_payment = self.amount / self.duration
+            return
         val = (self.amount * int_rate)
         val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
         self._monthly_payment = val
-- 
2.43.0


From a70ad4334f0be4d7cedb7fcdaa34e81bda8032c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 09/57] fix: loans accept a text start date, run when no start
 is given, and follow changes of their duration

---
 auxi/modelling/business/basic.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 1bc4443..8ff9b73 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -179,18 +179,24 @@ class BasicLoanActivity(Activity):
             name,
             description=description,
             start=start,
-            end=start + relativedelta(months=duration+1),
             interval=interval)
         self.bank_account = bank_account
         self.loan_account = loan_account
         self.interest_account = interest_account
         self._amount = amount
-        self.duration = duration
+        self._duration = duration
         self.interest_rate = interest_rate
+        self._update_end_datetime_()
 
         self._months_executed = 0
         self._amount_left = amount
 
+    def _update_end_datetime_(self):
+        # Without a start the loan ends after its last instalment only.
+        if self.start_datetime != datetime.min:
+            self.end_datetime = self.start_datetime + relativedelta(
+                months=self.duration+1)
+
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
         if self.duration == 0:
@@ -212,6 +218,16 @@ class BasicLoanActivity(Activity):
         self._amount = value
         self._update_monthly_payment_()
 
+    @property
+    def duration(self):
+        return self._duration
+
+    @duration.setter
+    def duration(self, value):
+        self._duration = value
+        self._update_monthly_payment_()
+        self._update_end_datetime_()
+
     @property
     def interest_rate(self):
         return self._interest_rate
@@ -224,7 +240,8 @@ class BasicLoanActivity(Activity):
 
     def _meet_execution_criteria(self, ix_period):
         return super(BasicLoanActivity, self)._meet_execution_criteria(
-            ix_period) and self.amount > 0 and self.duration > 0
+            ix_period) and self.amount > 0 and self.duration > 0 and \
+            self._months_executed <= self.duration
 
     def prepare_to_run(self, clock, period_count):
         """
-- 
2.43.0


From 6658e2f198901caa1e9be8864ec3c754820d2f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 10/57] fix: models with a text start date work with activities
 and reports that use datetimes

---
 auxi/modelling/business/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 41450de..b2ca43e 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -41,9 +41,13 @@ class TimeBasedModel(NamedObject):
                  start_datetime=datetime.now(),
                  period_duration=TimePeriod.year,
                  period_count=1):
+        start_datetime = get_date(start_datetime)
+        if not isinstance(start_datetime, datetime):
+            start_datetime = datetime.combine(start_datetime,
+                                              datetime.min.time())
         self.clock = Clock(
             "Clock",
-            start_datetime=get_date(start_datetime),
+            start_datetime=start_datetime,
             timestep_period_duration=period_duration)
         self.period_count = period_count
         self.entities = []
-- 
2.43.0


From e5a667e86f8613eefd0b6dcd2204678f66eb5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 11/57] fix: year end accepts revenue accounts that are only
 debited

---
 auxi/modelling/business/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 7c4e292..fad0c74 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -446,7 +446,7 @@ class Entity(NamedObject):
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
                 elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[dt_acc] = -tx.amount
-- 
2.43.0


From 6c243bd5ad01253aa20190aee152b78c3cbfbd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 12/57] fix: year end closes both accounts of transactions
 between two income statement accounts

---
 auxi/modelling/business/structure.py | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index fad0c74..2677b83 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -423,39 +423,37 @@ class Entity(NamedObject):
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc in cost_of_sales_accs:
                     if cr_acc in gross_profit_write_off_accs:
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in cost_of_sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.revenue:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] += tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.expense:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = -tx.amount
+
+                if dt_acc in sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc in cost_of_sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
+                        inc_summary_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        inc_summary_write_off_accs[dt_acc] = -tx.amount
                 elif dt_acc.account_type == AccountType.expense:
                     if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] += tx.amount
-- 
2.43.0


From b8c4f640366aa671fc76217aedf0c838a5927b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 13/57] fix: year end includes transactions of the last second
 of the year

---
 auxi/modelling/business/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 2677b83..70f14ad 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -412,7 +412,8 @@ class Entity(NamedObject):
             cost_of_sales_accs = gls.get_account_descendants(gls._acci_cos_)
             year_taxes = []
             for tx in self.gl.transactions:
-                if year_start_date <= tx.tx_date <= year_end_date:
+                if year_start_date <= tx.tx_date < \
+                   self._prev_year_end_datetime:
                     year_taxes.append(tx)
             for tx in year_taxes:
                 cr_acc = gls.get_account(tx.cr_account)
-- 
2.43.0


From a0829fabe44ea8090cdef7c0519ca05e857f0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 14/57] fix: saved objects keep references to shared objects
 (keys are no longer sorted after encoding)

---
 auxi/core/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 655998c..c8ad9aa 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -21,8 +21,9 @@ class Object(object):
 
     def __str__(self):
         o = json.loads(jsonpickle.encode(self))
-        result = json.dumps(o, sort_keys=True, indent=4,
-                            separators=(',', ': '))
+        # The keys must stay in the order in which they were encoded: references
+        # to shared objects count the objects in that order.
+        result = json.dumps(o, indent=4, separators=(',', ': '))
         return result
 
     def __hash__(self):
-- 
2.43.0


From 48a18f10d2481b5f9167f3c979e5e08d71dfd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 15/57] fix: phases with magnetic data can be created

---
 auxi/tools/chemistry/thermochemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 12e1cbb..a87ab50 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -166,15 +166,15 @@ class Phase(NamedObject):
         """[J/mol/K] The standard entropy of the phase at Tref."""
 
         if 'magnetic' in dictionary:
-            self.Tc_mag = ['magnetic']['Tc']
+            self.Tc_mag = dictionary['magnetic']['Tc']
             """The critical temperature, which is the Curie temperature for
             ferromagnetic materials or the Neel temperature for
             antiferromagnetic materials."""
 
-            self.beta0_mag = ['magnetic']['beta0']
+            self.beta0_mag = dictionary['magnetic']['beta0']
             """The average magnetic moment per atom."""
 
-            self.p_mag = ['magnetic']['p']
+            self.p_mag = dictionary['magnetic']['p']
             """This value can be thought of as the fraction of the magnetic
             enthalpy absorbed above the critical. It depends on structure."""
 
-- 
2.43.0


From 7a21d7a1417c3c67ab6e2a3976b1b0a9eab773f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 16/57] fix: reports no longer round amounts to six digits in
 text, LaTeX and console formats

---
 auxi/core/reporting.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/auxi/core/reporting.py b/auxi/core/reporting.py
index 7378b15..c23bb46 100644
--- a/auxi/core/reporting.py
+++ b/auxi/core/reporting.py
@@ -50,6 +50,11 @@ class Report(Object):
     def _render_matplotlib_(self, png=False):
         pass
 
+    def _tabulate_(self, table, tablefmt):
+        # Text that looks like a number must not be rounded to six digits.
+        return tabulate(table, headers="firstrow", tablefmt=tablefmt,
+                        disable_numparse=True)
+
     def render(self, format=ReportFormat.printout):
         """
         Render the report in the specified format
@@ -63,7 +68,7 @@ class Report(Object):
 
         table = self._generate_table_()
         if format == ReportFormat.printout:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
         elif format == ReportFormat.latex:
             self._render_latex_(table)
         elif format == ReportFormat.txt:
@@ -71,7 +76,7 @@ class Report(Object):
         elif format == ReportFormat.csv:
             self._render_csv_(table)
         elif format == ReportFormat.string:
-            return str(tabulate(table, headers="firstrow", tablefmt="simple"))
+            return str(self._tabulate_(table, "simple"))
         elif format == ReportFormat.matplotlib:
             self._render_matplotlib_()
         elif format == ReportFormat.png:
@@ -84,17 +89,17 @@ class Report(Object):
         if self.output_path is not None:
             with open(self.output_path + '.tex', 'w') as f:
                 f.write(
-                    tabulate(table, headers="firstrow", tablefmt="latex"))
+                    self._tabulate_(table, "latex"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="latex"))
+            print(self._tabulate_(table, "latex"))
 
     def _render_txt_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.txt', 'w') as f:
                 f.write(
-                    tabulate(table, headers="firstrow", tablefmt="simple"))
+                    self._tabulate_(table, "simple"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
 
     def _render_csv_(self, table):
         if self.output_path is not None:
-- 
2.43.0


From fb201b439d4c058efe4cd8c776ca977dce5cddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 17/57] fix: chemical material packages of one material add
 their masses elementwise and can be cleared

---
 auxi/modelling/process/materials/chem.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a4a9d1f..f13db87 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -277,7 +277,8 @@ class MaterialPackage(Object):
             if self.material == other.material:
                 result = MaterialPackage(
                     self.material,
-                    self.compound_masses + other.compound_masses)
+                    [m + other.compound_masses[ix]
+                     for ix, m in enumerate(self.compound_masses)])
                 return result
             else:  # Packages of different materials.
                 result = self.clone()
@@ -378,7 +379,7 @@ class MaterialPackage(Object):
         Set all the compound masses in the package to zero.
         """
 
-        self.compound_masses *= 0.0
+        self.compound_masses = [0.0] * len(self.compound_masses)
 
     def get_assay(self):
         """
@@ -553,7 +554,9 @@ class MaterialPackage(Object):
 
             # Packages of the same material.
             if self.material == other.material:
-                self.compound_masses += other.compound_masses
+                self.compound_masses = [
+                    m + other.compound_masses[ix]
+                    for ix, m in enumerate(self.compound_masses)]
 
             # Packages of different materials.
             else:
-- 
2.43.0


From 457e01417db0453d8b8c89e74e46c030f56ca5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 18/57] fix: adding an incompatible package is rejected before
 anything is changed, also for size classes

---
 auxi/modelling/process/materials/chem.py   | 1 +
 auxi/modelling/process/materials/psd.py    | 5 +++--
 auxi/modelling/process/materials/slurry.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index f13db87..a86d9e0 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -568,6 +568,7 @@ class MaterialPackage(Object):
                                         "'. The compound '" + compound +
                                         "' was not found in '" +
                                         self.material.name + "'.")
+                for compound in other.material.compounds:
                     self.add_to((compound, other.get_compound_mass(compound)))
 
         # Add the specified mass of the specified compound.
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 593fe22..cdc3e67 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -290,7 +290,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     result = result + (
                         size_class,
@@ -513,8 +513,9 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
+                for size_class in other.material.size_classes:
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
 
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index eb0a452..f8c3e2e 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -398,7 +398,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name + "'. The size class '" +
-                            size_class + "' was not found in '" +
+                            str(size_class) + "' was not found in '" +
                             self.material.name + "'.")
                     result = result + (
                         size_class, other.get_size_class_mass(size_class))
-- 
2.43.0


From 55faed9f4bba131d3141f8d2fe1257c7fed75a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 19/57] fix: extracting nothing from an empty package gives an
 empty package instead of dividing by zero

---
 auxi/modelling/process/materials/chem.py   | 3 ++-
 auxi/modelling/process/materials/psd.py    | 3 ++-
 auxi/modelling/process/materials/slurry.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a86d9e0..48ea922 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -503,7 +503,8 @@ class MaterialPackage(Object):
                 raise Exception('Invalid extraction operation. Cannot extract'
                                 'a mass larger than the package\'s mass.')
 
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 [m * fraction_to_subtract for m in self.compound_masses])
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index cdc3e67..a28622f 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -458,7 +458,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material, self.size_class_masses * fraction_to_subtract)
             self.size_class_masses = self.size_class_masses * (
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index f8c3e2e..d920f79 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -639,7 +639,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 self.solid_density,
-- 
2.43.0


From 4032455444f15ee9ffa9c1adc6995560ea45a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 20/57] fix: materials store a copy of a new assay and keep the
 old one when it is rejected

---
 auxi/modelling/process/materials/chem.py   | 4 ++--
 auxi/modelling/process/materials/psd.py    | 2 +-
 auxi/modelling/process/materials/slurry.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 48ea922..9625538 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -173,7 +173,7 @@ class Material(NamedObject):
         :returns: A floating point array.
         """
 
-        return [0] * self.compound_count
+        return [0.0] * self.compound_count
 
     def add_assay(self, name, assay):
         """
@@ -196,7 +196,7 @@ class Material(NamedObject):
             raise Exception('Invalid assay: An assay with that name already '
                             'exists.')
 
-        self.assays[name] = assay
+        self.assays[name] = list(assay)
 
     def get_assay_total(self, name):
         """
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index a28622f..3817be5 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -182,7 +182,7 @@ class Material(NamedObject):
         elif name in self.assays.keys():
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
-        self.assays[name] = assay
+        self.assays[name] = assay.copy()
 
     def get_assay_total(self, name):
         """
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index d920f79..64718a7 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -238,11 +238,9 @@ class Material(NamedObject):
 
         if not type(solid_density) is float:
             raise Exception("Invalid solid density. It must be a float.")
-        self.solid_densities[name] = solid_density
 
         if not type(H2O_fraction) is float:
             raise Exception("Invalid H2O fraction. It must be a float.")
-        self.H2O_fractions[name] = H2O_fraction
 
         if not type(assay) is numpy.ndarray:
             raise Exception("Invalid assay. It must be a numpy array.")
@@ -253,7 +251,9 @@ class Material(NamedObject):
         elif name in self.assays.keys():
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
-        self.assays[name] = assay
+        self.assays[name] = assay.copy()
+        self.solid_densities[name] = solid_density
+        self.H2O_fractions[name] = H2O_fraction
 
     def get_assay_total(self, name):
         """
-- 
2.43.0


From da6750e4593e0841d0e25d99abb7f50f29571dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 21/57] fix: particulate materials keep their description

---
 auxi/modelling/process/materials/psd.py    | 2 +-
 auxi/modelling/process/materials/slurry.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 3817be5..48aefd3 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -65,7 +65,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super(Material, self).__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 64718a7..8199398 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -74,7 +74,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super(Material, self).__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-- 
2.43.0


From 759a6da5e05fcf4a14e6c106625ac7ac0ac49fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 22/57] fix: slurry packages accept water only under its own
 name and add water-only packages

---
 auxi/modelling/process/materials/slurry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 8199398..2e0ba99 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -376,9 +376,12 @@ class MaterialPackage(Object):
         if type(other) is MaterialPackage:
             solid_mass = self.get_solid_mass()
             other_solid_mass = other.get_solid_mass()
-            solid_density = (solid_mass + other_solid_mass) / \
-                (solid_mass / self.solid_density +
-                    other_solid_mass / other.solid_density)
+            if solid_mass + other_solid_mass == 0.0:
+                solid_density = self.solid_density
+            else:
+                solid_density = (solid_mass + other_solid_mass) / \
+                    (solid_mass / self.solid_density +
+                        other_solid_mass / other.solid_density)
             H2O_mass = self.H2O_mass + other.H2O_mass
             # Packages of the same material.
             if self.material == other.material:
@@ -498,7 +501,7 @@ class MaterialPackage(Object):
             return False
         elif not len(value) == 2:
             return False
-        elif not type(value[0]) is str and not value[0] == "H2O":
+        elif not type(value[0]) is str or not value[0] == "H2O":
             return False
         elif not type(value[1]) is float and \
                 not type(value[1]) is numpy.float64 and \
-- 
2.43.0


From 110768fd33be0ac0788a304c051bfd18f22307d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 23/57] fix: temperatures of small and empty thermochemical
 packages and streams are solved

---
 auxi/modelling/process/materials/thermo.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baf7e42..2d4e0c7 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -713,6 +713,10 @@ class MaterialPackage(Object):
         :returns: Temperature. [°C]
         """
 
+        # Without material there is no enthalpy to match.
+        if self.mass == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
@@ -725,9 +729,11 @@ class MaterialPackage(Object):
 
         # Solve for temperature.
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:
+                break
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_H(x[i]) - H)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < 1.0e-5 and abs(x[i] - x[i-1]) < 1.0e-5:
                 break
 
         return x[len(x) - 1]
@@ -1432,6 +1438,10 @@ class MaterialStream(Object):
         :returns: Temperature. [°C]
         """
 
+        # Without material there is no enthalpy to match.
+        if self.mfr == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
@@ -1444,9 +1454,11 @@ class MaterialStream(Object):
 
         # Solve for temperature.
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:
+                break
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_Hfr(x[i]) - Hfr)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < 1.0e-5 and abs(x[i] - x[i-1]) < 1.0e-5:
                 break
 
         return x[len(x) - 1]
-- 
2.43.0


From 332c8cc9d836421bc019d5d76e078316d983d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 24/57] fix: added assays of thermochemical materials are
 copied and can be used to create packages

---
 auxi/modelling/process/materials/thermo.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 2d4e0c7..155a18d 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -202,16 +202,14 @@ class Material(NamedObject):
             result += "-" * line_length + "\n"
             result += "Custom Properties:\n"
             result += "-" * line_length + "\n"
-            first_assay = list(sorted(self.assay_custom_properties.keys()))[0]
-            properties = list(sorted(
-                self.assay_custom_properties[first_assay].keys()))
+            properties = sorted(set(self.custom_properties))
             for prop in properties:
                 pad = ''
                 result += prop.ljust(20)
                 for assay_name in assay_names:
-                    result += pad + "{:.8e}".format(
-                        self.assay_custom_properties[assay_name][prop]
-                        ).rjust(15)
+                    value = self.assay_custom_properties[assay_name].get(prop)
+                    result += pad + ("" if value is None else
+                                     "{:.8e}".format(value)).rjust(15)
                     pad = '  '
                 result += "\n"
         result += "=" * line_length + "\n"
@@ -304,8 +302,9 @@ class Material(NamedObject):
         elif name in self.raw_assays.keys():
             raise Exception("Invalid assay: An assay with that name already "
                             "exists.")
-        self.raw_assays[name] = assay
-        self.converted_assays[name] = assay
+        self.raw_assays[name] = assay.copy()
+        self.converted_assays[name] = assay.copy()
+        self.assay_custom_properties[name] = dict()
 
     def get_assay_total(self, name):
         """
-- 
2.43.0


From fe27c1414544db98f3d9584973df349ac7c7b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 25/57] fix: blank lines after a material's custom properties
 are skipped

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 155a18d..5d7301a 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -137,6 +137,8 @@ class Material(NamedObject):
         if must_read_custom_properties:
             for i in range(i+1, len(lines)):
                 strings = lines[i].split(" ")
+                if len(strings) < len(assay_names) + 1:  # Not a full line.
+                    continue
                 for j in range(0, len(self.raw_assays)):
                     assay_name = assay_names[j]
                     property_name = strings[0]
-- 
2.43.0


From a228ba1e872e3745a61cb55be279fff78f9ebaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 26/57] fix: clones of thermochemical packages and streams have
 their own custom properties

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 5d7301a..877fa83 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -857,6 +857,7 @@ class MaterialPackage(Object):
 
         result = copy.copy(self)
         result._compound_masses = copy.deepcopy(self._compound_masses)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
@@ -1605,6 +1606,7 @@ class MaterialStream(Object):
 
         result = copy.copy(self)
         result._compound_mfrs = copy.deepcopy(self._compound_mfrs)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
-- 
2.43.0


From ca3f32f33310d86bced2ae4c7a5bf6d43ee68f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 27/57] fix: clearing a material stream clears its enthalpy
 flow rate

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 877fa83..6c46a99 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1618,7 +1618,7 @@ class MaterialStream(Object):
         self._compound_mfrs = self._compound_mfrs * 0.0
         self._P = 1.0
         self._T = 25.0
-        self._H = 0.0
+        self._Hfr = 0.0
 
     def get_assay(self):
         """
-- 
2.43.0


From a805a2fafd9fe66cae9a1f5f36a034e033eff24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 28/57] fix: extracting a material keeps the pressure

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 6c46a99..23820d2 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1080,6 +1080,7 @@ class MaterialPackage(Object):
             result += (compound, mass)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
@@ -1856,6 +1857,7 @@ class MaterialStream(Object):
             result += (compound, mfr)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
-- 
2.43.0


From e85a3fdf4ff687c5a93d5a031f0a29d34c482424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 29/57] fix: extracting nothing from an empty thermochemical
 package or stream gives an empty one

---
 auxi/modelling/process/materials/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 23820d2..571984d 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1030,7 +1030,7 @@ class MaterialPackage(Object):
         if mass > self.mass:
             raise Exception("Invalid extraction operation. \
                 Cannot extract a mass larger than the package's mass.")
-        fraction_to_subtract = mass / self.mass
+        fraction_to_subtract = mass / self.mass if self.mass > 0.0 else 0.0
         result = MaterialPackage(
             self.material, self._compound_masses *
             fraction_to_subtract, self._P, self._T)
@@ -1786,7 +1786,7 @@ class MaterialStream(Object):
             raise Exception("Invalid extraction operation. Cannot extract a "
                             "mass flow rate larger than the streams's mass "
                             "flow rate.")
-        fraction_to_subtract = mfr / self.mfr
+        fraction_to_subtract = mfr / self.mfr if self.mfr > 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
             fraction_to_subtract, self._P, self._T)
-- 
2.43.0


From e45f239595978b18139c80bda6a92990f92fb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 30/57] fix: mass flow extracted from a coal stream is coal
 with the same heating value

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 571984d..f121bb3 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1789,7 +1789,7 @@ class MaterialStream(Object):
         fraction_to_subtract = mfr / self.mfr if self.mfr > 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_mfrs = self._compound_mfrs * \
             (1.0 - fraction_to_subtract)
-- 
2.43.0


From 0b386c738837e330522a98146e5c2180484ded88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 31/57] fix: blank lines in material files without assays are
 skipped

---
 auxi/modelling/process/materials/chem.py   | 3 ++-
 auxi/modelling/process/materials/psd.py    | 3 ++-
 auxi/modelling/process/materials/slurry.py | 2 +-
 auxi/modelling/process/materials/thermo.py | 3 ++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 9625538..53fe4f1 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -109,7 +109,8 @@ class Material(NamedObject):
         # Read the compounds and assays.
         for i in range(1, len(lines)):
             strings = lines[i].split(' ')
-            if len(strings) < len(assay_names) + 1:  # Not a full line.
+            # Not a full line.
+            if not lines[i] or len(strings) < len(assay_names) + 1:
                 continue
             self.compounds.append(strings[0])  # Add the new compound.
             for j in range(0, len(self.assays)):  # Add mass fractions.
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 48aefd3..c0087aa 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -85,7 +85,8 @@ class Material(NamedObject):
         # Read the size classes and assays.
         for i in range(1, len(lines)):
             strings = lines[i].split(" ")
-            if len(strings) < len(assay_names) + 1:  # Not a full line.
+            # Not a full line.
+            if not lines[i] or len(strings) < len(assay_names) + 1:
                 continue
             # Add the new size class.
             self.size_classes.append(float(strings[0]))
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 2e0ba99..4d1514a 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -122,7 +122,7 @@ class Material(NamedObject):
         for i in range(3, len(lines)):
             strings = lines[i].split(" ")
             # Not a full line.
-            if len(strings) < len(assay_names) + 1:
+            if not lines[i] or len(strings) < len(assay_names) + 1:
                 continue
             # Add the new size class.
             self.size_classes.append(float(strings[0]))
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index f121bb3..9c8a454 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -112,7 +112,8 @@ class Material(NamedObject):
                 must_read_custom_properties = True
                 break
             strings = lines[i].split(" ")
-            if len(strings) < len(assay_names) + 1:  # Not a full line.
+            # Not a full line.
+            if not lines[i] or len(strings) < len(assay_names) + 1:
                 continue
 
             # Add the new compound.
-- 
2.43.0


From d3efb3f53aa3f979cb1ba18f202e9f1982f1e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 32/57] fix: adding thermochemical packages keeps the
 temperature when both are empty

---
 auxi/modelling/process/materials/thermo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 9c8a454..79b09c6 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -498,7 +498,7 @@ class MaterialPackage(Object):
             if self.material == other.material:  # Packages of same material.
                 result = MaterialPackage(self.material,
                                          self._compound_masses +
-                                         other._compound_masses)
+                                         other._compound_masses, T=self._T)
                 result.H = self._H + other._H
                 result.P = self.P
                 return result
@@ -1221,7 +1221,8 @@ class MaterialStream(Object):
 
                 result = MaterialStream(self.material,
                                          self._compound_mfrs +
-                                         other._compound_mfrs, isCoal=isCoal, HHV=HHV)
+                                         other._compound_mfrs, T=self._T,
+                                         isCoal=isCoal, HHV=HHV)
                 result.Hfr = self._Hfr + other._Hfr
                 result.P = self.P
                 return result
-- 
2.43.0


From 5119d36f1f75333d65c861b533688211f3088e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 33/57] fix: element mass flow rates of a stream can be
 determined

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 79b09c6..48d5d61 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1705,7 +1705,7 @@ class MaterialStream(Object):
         result = numpy.zeros(len(elements))
         for compound in self.material.compounds:
             result += self.get_compound_mfr(compound) *\
-                stoich.element_mass_fractions(compound, elements)
+                numpy.array(stoich.element_mass_fractions(compound, elements))
         return result
 
     def get_element_mfr_dictionary(self):
-- 
2.43.0


From e31881536d6f51e8d57bbc7c3b813d4fff33a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 34/57] fix: coal streams without flow have no enthalpy instead
 of an undefined one

---
 auxi/modelling/process/materials/thermo.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 48d5d61..807b5fe 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1213,7 +1213,10 @@ class MaterialStream(Object):
                         HHV += self.HHV * self.mfr
                     if other.HHV:
                         HHV += other.HHV * other.mfr
-                    HHV /= self.mfr + other.mfr
+                    if self.mfr + other.mfr > 0.0:
+                        HHV /= self.mfr + other.mfr
+                    else:
+                        HHV = self.HHV
                     isCoal = True
                 else:
                     isCoal = False
@@ -1360,6 +1363,8 @@ class MaterialStream(Object):
                 Hin += thermo.H(compound, T, self._compound_mfrs[index])
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg
+        if m_total == 0.0:  # No daf coal.
+            return 0.0
 
         Hout = 0.0  # kWh
         Hout += thermo.H('CO2[G]', T, cc(m_C, 'C', 'CO2', 'C'))
@@ -1415,6 +1420,8 @@ class MaterialStream(Object):
                 Hfr += dHfr
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg/h
+        if m_total == 0.0:  # No daf coal.
+            return Hfr
         y_C = m_C / m_total
         y_H = m_H / m_total
         y_O = m_O / m_total
-- 
2.43.0


From 0e6d96e0ab9bd5c8372e9ea8f196999118187fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 35/57] fix: adding compounds to or extracting them from coal
 streams updates the heating value by their heat of combustion

---
 auxi/modelling/process/materials/thermo.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 807b5fe..191ad21 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1273,6 +1273,7 @@ class MaterialStream(Object):
             # Create the result stream.
             result = self * 1.0
             result._compound_mfrs[index] += mfr
+            result._update_HHV(compound, mfr)
             result.Hfr = self._Hfr + enthalpy
             result._P = self._P
             return result
@@ -1829,10 +1830,14 @@ class MaterialStream(Object):
         if self.isCoal:
             HHV = self.HHV * (self.mfr - mfr)  # MJ
 
-            dH = thermo.H(compound, 25, mfr)  # kWh
-            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'COs', 'C'))  # kWh
-            dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))  # kWh
-            dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))  # kWh
+            dH = 0.0  # kWh
+            formula = compound.split('[')[0]
+            if any(stoich.element_mass_fraction(formula, e) == 1.0
+                   for e in ['C', 'H', 'O', 'N', 'S']):  # Not ash.
+                dH += thermo.H(compound, 25, mfr)
+                dH -= thermo.H('CO2[G]', 25, cc(mfr, formula, 'CO2', 'C'))
+                dH -= thermo.H('H2O[L]', 25, cc(mfr, formula, 'H2O', 'H'))
+                dH -= thermo.H('SO2[G]', 25, cc(mfr, formula, 'SO2', 'S'))
             dH *= 3.6  # MJ
 
             HHV += dH  # MJ
-- 
2.43.0


From 94254b97694fdc4c270bf0eab6a4b99f13668578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 36/57] fix: formula groups with a zero multiplier do not count
 as one group

---
 auxi/tools/chemistry/stoichiometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/stoichiometry.py b/auxi/tools/chemistry/stoichiometry.py
index 48b068e..72ab53c 100644
--- a/auxi/tools/chemistry/stoichiometry.py
+++ b/auxi/tools/chemistry/stoichiometry.py
@@ -137,13 +137,13 @@ class CompoundVisitor(parsimonious.NodeVisitor):
 
     def visit_dottedgroup(self, _, dottedgroup):
         (_, number, group) = dottedgroup
-        if not number:
+        if number == []:
             number = 1
         return Group([group], number, dotted=True)
 
     def visit_subscriptedgroup(self, _, subscriptedgroup):
         (_, group, _, number) = subscriptedgroup
-        if not number:
+        if number == []:
             number = 1
         return Group([group], number)
 
-- 
2.43.0


From 2901b41a493c5f9fd264304ede6c2e8f12b50ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 37/57] fix: element sets of formulas with surrounding
 whitespace are determined like their molar masses

---
 auxi/tools/chemistry/stoichiometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/chemistry/stoichiometry.py b/auxi/tools/chemistry/stoichiometry.py
index 72ab53c..bbe91b7 100644
--- a/auxi/tools/chemistry/stoichiometry.py
+++ b/auxi/tools/chemistry/stoichiometry.py
@@ -339,7 +339,7 @@ def elements(compounds):
     :returns: List of elements.
     """
 
-    elementlist = [parse_compound(compound).count().keys()
+    elementlist = [parse_compound(compound.strip()).count().keys()
                    for compound in compounds]
     return set().union(*elementlist)
 
-- 
2.43.0


From 617310e45b5ea33389d6c4e7c87b48521635cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 38/57] fix: creating a compound leaves the phase dictionaries
 it is given unchanged

---
 auxi/tools/chemistry/thermochemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a87ab50..3b742e8 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -437,8 +437,8 @@ class Compound(Object):
         """Reference to the publisher of the thermo data."""
 
         for k, v in dictionary['Phases'].items():
-            if not 'Symbol' in v:
-                v['Symbol'] = k
+            if 'Symbol' not in v:
+                v = dict(v, Symbol=k)
             self._phases[k] = Phase(v)
 
 #    def __str__(self):
-- 
2.43.0


From eeace7a8805342c1809d537166877caf26778f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 39/57] fix: enthalpy and entropy of magnetic phases above
 their last temperature range count the magnetic part once

---
 auxi/tools/chemistry/thermochemistry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 3b742e8..d0dfe27 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -288,7 +288,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*(T - Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*(T - Tmax)
 
         return result + self.H_mag(T)
 
@@ -334,7 +334,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*math.log(T / Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*math.log(T / Tmax)
 
         return result + self.S_mag(T)
 
@@ -381,8 +381,9 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        h = h + self.Cp(Tmax)*(T - Tmax)
-        s = s + self.Cp(Tmax)*math.log(T / Tmax)
+        Cp = self._Cp_records[str(Tmax)].Cp(Tmax)
+        h = h + Cp*(T - Tmax)
+        s = s + Cp*math.log(T / Tmax)
 
         return h - T * s + self.G_mag(T)
 
-- 
2.43.0


From 23ffee21d8474a732f3cea856529139937d43d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 40/57] fix: factsage data of phases with one record, of 298 as
 a value and of a bare formula line are read

---
 auxi/tools/chemistry/thermochemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index d0dfe27..af6ec55 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -564,7 +564,7 @@ def _read_compound_from_factsage_file_(file_name):
     with open(file_name) as f:
         lines = f.readlines()
 
-    compound = {'Formula': lines[0].split(' ')[1]}
+    compound = {'Formula': lines[0].split(' ')[1].strip()}
     # FIXME: replace with logging
     print(compound['Formula'])
     compound['Phases'] = phs = {}
@@ -577,7 +577,6 @@ def _read_compound_from_factsage_file_(file_name):
         if started:
             if line.startswith('_'):  # line indicating end of data
                 break
-            line = line.replace(' 298 ', ' 298.15 ')
             line = line.replace(' - ', ' ')
             while '  ' in line:
                 line = line.replace('  ', ' ')
@@ -589,6 +588,7 @@ def _read_compound_from_factsage_file_(file_name):
             phase = strings[0]
             if phase != phaseold:  # new phase detected
                 phaseold = phase
+                recordold = None
                 ph = phs[phase] = {}
                 ph['Symbol'] = phase
                 ph['DHref'] = float(strings[2])
-- 
2.43.0


From 53be82919c9d91d6d2a4b37dcd04064a9a308d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 41/57] fix: factsage phases of any name and a last line with
 trailing blanks are read

---
 auxi/tools/chemistry/thermochemistry.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index af6ec55..1f70bc2 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -570,8 +570,8 @@ def _read_compound_from_factsage_file_(file_name):
     compound['Phases'] = phs = {}
 
     started = False
-    phaseold = 'zz'
-    recordold = '0'
+    phaseold = None
+    recordold = None
 
     for line in lines:
         if started:
@@ -580,9 +580,7 @@ def _read_compound_from_factsage_file_(file_name):
             line = line.replace(' - ', ' ')
             while '  ' in line:
                 line = line.replace('  ', ' ')
-            line = line.replace(' \n', '')
-            line = line.replace('\n', '')
-            strings = line.split(' ')
+            strings = line.rstrip().split(' ')
             if len(strings) < 2:  # empty line
                 continue
             phase = strings[0]
-- 
2.43.0


From 4a73a30626e2bd493e7b0de13d564a6851d4afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 42/57] fix: slag viscosity models validate the state and leave
 the composition they are given unchanged

---
 .../tools/materialphysicalproperties/slags.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 89c76a9..07dfe41 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -55,9 +55,10 @@ class UrbainViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        x = state['x']
+        super().calculate(**state)
+        return self._calculate_mu(state['T'], state['x'])
 
+    def _calculate_mu(self, T, x):
         # normalise mole fractions
         x_total = sum(x.values())
         x = {compound: x[compound]/x_total for compound in x.keys()}
@@ -122,10 +123,8 @@ class UrbainViscosityTy(UrbainViscosityTx):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        y = state['y']
-        x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        Model.calculate(self, **state)
+        return self._calculate_mu(state['T'], amount_fractions(state['y']))
 
 
 class RiboudViscosityTx(Model):
@@ -156,8 +155,11 @@ class RiboudViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        x = state['x']
+        super().calculate(**state)
+        return self._calculate_mu(state['T'], state['x'])
+
+    def _calculate_mu(self, T, x):
+        x = dict(x)
 
         # create the slag constituent categories
         compounds_sio2 = ['SiO2', 'PO2.5', 'TiO2', 'ZrO2']
@@ -224,10 +226,8 @@ class RiboudViscosityTy(RiboudViscosityTx):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        y = state['y']
-        x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        Model.calculate(self, **state)
+        return self._calculate_mu(state['T'], amount_fractions(state['y']))
 
 
 ds1 = DataSet(_path('data/dataset-slag-slagatlas1995.csv'))
-- 
2.43.0


From 97e4fe490c1693bb925fc214ed8e66d900dddba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 43/57] fix: coal models validate the state

---
 auxi/tools/materialphysicalproperties/coals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auxi/tools/materialphysicalproperties/coals.py b/auxi/tools/materialphysicalproperties/coals.py
index f482cca..ac320ac 100644
--- a/auxi/tools/materialphysicalproperties/coals.py
+++ b/auxi/tools/materialphysicalproperties/coals.py
@@ -109,6 +109,8 @@ class DafCpTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
@@ -158,6 +160,8 @@ class DafHTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
-- 
2.43.0


From 4f75e8b40711d14b44f81cbe05157f069d8b3976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 44/57] fix: gas mixture models validate the state

---
 auxi/tools/materialphysicalproperties/gases.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4844129..6b2524f 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -444,6 +444,8 @@ class WilkeMuTx(Model):
 
             return result
 
+        super().calculate(**state)
+
         T = state['T']
         x = state['x']
 
@@ -532,6 +534,8 @@ class HerningZippererMuTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         x = state['x']
 
@@ -613,6 +617,8 @@ class IdealCpTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state["T"]
         x = state["x"]
 
-- 
2.43.0


From 289dd9b128840d93a8b3964c886a0a69604e88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 45/57] fix: air can be a component of gas mixtures

---
 auxi/tools/materialphysicalproperties/gases.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 6b2524f..0ba7812 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -403,6 +403,10 @@ materials = {
     "O2": oxygen,
     "H2O": water_vapour}
 
+molar_masses = {compound: M(compound)
+                for compound in materials if compound != "Air"}
+molar_masses["Air"] = 28.9645  # g/mol
+
 
 class WilkeMuTx(Model):
     """
@@ -435,8 +439,8 @@ class WilkeMuTx(Model):
         """
 
         def phi(i, j, mu_i, mu_j):
-            M_i = M(i)
-            M_j = M(j)
+            M_i = molar_masses[i]
+            M_j = molar_masses[j]
 
             result = (1.0 + (mu_i / mu_j)**0.5 * (M_j / M_i)**0.25)**2.0
             result /= (4.0 / sqrt(2.0))
@@ -550,8 +554,8 @@ class HerningZippererMuTx(Model):
 
         mu = {i: materials[i].mu(T=T) for i in x.keys()}
 
-        result = sum([mu[i] * x[i] * sqrt(M(i)) for i in x.keys()])
-        result /= sum([x[i] * sqrt(M(i)) for i in x.keys()])
+        result = sum([mu[i] * x[i] * sqrt(molar_masses[i]) for i in x.keys()])
+        result /= sum([x[i] * sqrt(molar_masses[i]) for i in x.keys()])
 
         return result  # [Pa.s]
 
@@ -633,8 +637,8 @@ class IdealCpTx(Model):
 
         Cp = {i: materials[i].Cp(T=T) for i in x.keys()}
 
-        result = sum([Cp[i] * x[i] * M(i) for i in x.keys()])
-        result /= sum([x[i] * M(i) for i in x.keys()])
+        result = sum([Cp[i] * x[i] * molar_masses[i] for i in x.keys()])
+        result /= sum([x[i] * molar_masses[i] for i in x.keys()])
 
         return result  # [Pa.s]
 
-- 
2.43.0


From d43a5442d51db1b6a47cf2b9f99c5bfa0c621f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 46/57] fix: materials without property models can be created

---
 auxi/modelling/process/materials/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/process/materials/core.py b/auxi/modelling/process/materials/core.py
index 89970f6..6522733 100644
--- a/auxi/modelling/process/materials/core.py
+++ b/auxi/modelling/process/materials/core.py
@@ -35,6 +35,9 @@ class Material(NamedObject):
         self.mstate = state_of_matter
         """State of matter."""
 
+        if property_models is None:
+            property_models = {}
+
         if 'alpha' in property_models:
             self.alpha = property_models['alpha']
 
-- 
2.43.0


From c7ec51bc9804efb5e8449cd9da1b9404d823cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 47/57] fix: exponents in the air data set use an ASCII minus
 sign so that its columns are numbers

---
 .../data/dataset-air-lienhard2018.csv                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
index ee39447..8c4de2d 100644
--- a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
+++ b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
@@ -5,7 +5,7 @@ Temperature,Density,Heat Capacity,Dynamic Viscosity,Kinematic Viscosity,Thermal
 T,\rho,C_p,\mu,\nu,k,\alpha,Pr
 K,kg/m3,J/kg/K,kg/m/s,m2/s,W/m/K,m2/s,None
 T,rho,Cp,mu,nu,k,alpha,Pr
-100,3.605,1039,0.711E-5,0.197E−5,0.00941,0.251E−5,0.784
+100,3.605,1039,0.711E-5,0.197E-5,0.00941,0.251E-5,0.784
 150,2.368,1012,1.035E-05,4.37E-06,0.01406,5.87E-06,0.745
 200,1.769,1007,1.333E-05,7.54E-06,0.01836,1.031E-05,0.731
 250,1.412,1006,1.606E-05,1.137E-05,0.02241,1.578E-05,0.721
-- 
2.43.0


From bcdeb91a3581596b540d7e15c790a2dd66a0c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 48/57] fix: the Colebrook friction factor is calculated for
 all conditions

---
 .../transportphenomena/fluidflow/pressuredrop.py  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index bb6b30c..83a2516 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -14,8 +14,8 @@ __status__ = "Planning"
 
 import sys
 
-from math import log10, sqrt
-from scipy.optimize import root
+from math import log10
+from scipy.optimize import brentq
 
 
 def color_warn(text):
@@ -91,20 +91,21 @@ def f_tr_Colebrook(Re_D, ɛ, D):
     :return: Friction factor.
     """
 
-    def cb(f, Re_D, ɛ, D):
+    def cb(y, Re_D, ɛ, D):
         """
         Calculate the Colebrook function in the form that the Darcy friction
-        factor roots can be calculated.
+        factor roots can be calculated, with y = 1/√f. In this form it is
+        defined, and decreases, for all positive values of y.
 
         Source: cengel2018, Eq. 8-74.
         """
         term1 = ɛ / D / 3.7
-        term2 = 2.51 / Re_D / sqrt(f)
+        term2 = 2.51 / Re_D * y
 
-        return -2 * log10(term1 + term2) - 1 / sqrt(f)
+        return -2 * log10(term1 + term2) - y
 
     # find the roots of the Colebrook equation
-    return root(cb, 0.02, args=(Re_D, ɛ, D)).x[0]
+    return 1 / brentq(cb, 1.0E-8, 1.0E3, args=(Re_D, ɛ, D))**2
 
 
 def D_h(A, P):
-- 
2.43.0


From e91196ba5d4eb5415020856e125c3e1934c80ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 49/57] fix: the Rayleigh number uses the standard acceleration
 of gravity and fluid temperature

---
 auxi/tools/transportphenomena/dimensionlessquantities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/dimensionlessquantities.py b/auxi/tools/transportphenomena/dimensionlessquantities.py
index de85172..dbe8a5a 100644
--- a/auxi/tools/transportphenomena/dimensionlessquantities.py
+++ b/auxi/tools/transportphenomena/dimensionlessquantities.py
@@ -4,6 +4,8 @@ This module provides functions to calculate dimensionless quantities used when
 doing transport phenomena calculations.
 """
 
+from auxi.tools import physicalconstants as const
+
 
 # TODO: Add mathematical formula to each function. See Gr for example.
 # TODO: Test to make sure that math formulae appear correctly on readthedocs.
@@ -99,7 +101,7 @@ def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
         * bluff body: diameter
     """
 
-    return g * beta * (Ts - Tinf) * L**3.0 / (nu * alpha)
+    return const.g * beta * (Ts - Tf) * L**3.0 / (nu * alpha)
 
 
 def Nu(L: float, h: float, k: float) -> float:
-- 
2.43.0


From 8882945cee52d07b7e52afe63d9fc2681cc6a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 50/57] fix: natural convection regions are selected with the
 order of magnitude of Ra

---
 .../transportphenomena/heattransfer/naturalconvection.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index ead2065..31a51d0 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -3,7 +3,7 @@ This module provides tools to calculate natural convection heat transfer
 coefficients.
 """
 
-from math import radians, cos
+from math import radians, cos, inf, log10
 from matplotlib import pyplot as plt
 from matplotlib.patches import Rectangle
 
@@ -320,8 +320,11 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         Pr = dq.Pr(nu, alpha)
         Ra = Gr * Pr
 
+        # the regions are defined in terms of the order of magnitude of Ra
+        log_Ra = log10(Ra) if Ra > 0.0 else -inf
+
         eq = [self.equation_dict[r]
-              for r in self.regions if r.contains_point(theta, Ra)][0]
+              for r in self.regions if r.contains_point(theta, log_Ra)][0]
 
         return eq(self, Ra, Pr)
 
-- 
2.43.0


From d131340ad7d7cc9349ac6d0a8a3e78974b0f4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 51/57] fix: natural convection regions cover every angle and
 Ra exactly once

---
 .../heattransfer/naturalconvection.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 31a51d0..70ecc90 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -227,34 +227,34 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         region = self.Region("r10", -45, True, 0, False, 5, True, 9, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_27_g
-        region = self.Region("r11", -45, True, 0, False, 9, True, None, True)
+        region = self.Region("r11", -45, True, 0, False, 9, False, None, True)
         eq_dict[region] = ifs._Nu_x__8_27_g
         region = self.Region("r12", 0, True, 0, True, None, False, 5, True)
         eq_dict[region] = ifs._Nu_x__8_26
-        region = self.Region("r13", 0, True, 0, True, 5, False, 11, False,
+        region = self.Region("r13", 0, True, 0, True, 5, False, 11, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_26
         region = self.Region("r14", 0, True, 0, True, 11, False, None, False)
         eq_dict[region] = ifs._Nu_x__8_26
         region = self.Region("r15", 0, False, 88, False, None, False, 5, False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r16", 0, True, 88, False, 5, True, 11, True,
+        region = self.Region("r16", 0, False, 88, False, 5, True, 11, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_27
         region = self.Region("r17", 0, False, 88, False, 11, False, None,
                              False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r18", 88, False, 90, True, None, False, 6, False)
+        region = self.Region("r18", 88, True, 90, True, None, False, 6, False)
         eq_dict[region] = ifs._Nu_x__8_38
         region = self.Region("r19", 88, True, 90, True, 6, True, 9, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_38
         region = self.Region("r20", 88, True, 89, False, 9, False, None, False)
         eq_dict[region] = ifs._Nu_x__8_38
-        region = self.Region("r21", 89, True, 90, True, 9, True, 11, True,
+        region = self.Region("r21", 89, True, 90, True, 9, False, 11, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_38
-        region = self.Region("r22", 88, False, 90, True, 11, False, None,
+        region = self.Region("r22", 89, True, 90, True, 11, False, None,
                              False)
         eq_dict[region] = ifs._Nu_x__8_38
 
-- 
2.43.0


From 9933171100c3156593141d9e1111955c999c8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 52/57] fix: natural convection to cold surfaces is calculated

---
 .../transportphenomena/heattransfer/naturalconvection.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 70ecc90..d4b4b03 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -312,11 +312,13 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
                 g = const.g*cos(thetar)
             else:
                 g = const.g
+            # a cold surface behaves like a hot one that faces the other way
+            theta = -theta
 
         nu = self._fluid.nu(T=self.Tr)
         alpha = self._fluid.alpha(T=self.Tr)
 
-        Gr = dq.Gr(L, Ts, Tf, beta, nu, g)
+        Gr = dq.Gr(L, max(Ts, Tf), min(Ts, Tf), beta, nu, g)
         Pr = dq.Pr(nu, alpha)
         Ra = Gr * Pr
 
-- 
2.43.0


From 73fe814bb05e1e0b168dfb2989d034cfdd2bac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 53/57] fix: variable groups could not be created: their
 constructor initialised another class and kept nothing

---
 auxi/modelling/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/core.py b/auxi/modelling/core.py
index fe11d9a..d1492b8 100644
--- a/auxi/modelling/core.py
+++ b/auxi/modelling/core.py
@@ -57,7 +57,10 @@ class VariableGroup(NamedObject):
 
     def __init__(self, name, value, units=None, category=None,
                  description=None):
-        super(Variable, self).__init__(name, description)
+        super(VariableGroup, self).__init__(name, description)
+        self.category = category
+        self.value = value
+        self.units = units
 
     def __call__(self):
         return self.value
-- 
2.43.0


From ba3bef78a497843b9edbd7578e12805c7a3e3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 54/57] fix: name the shipped gases after themselves instead of
 after their last data file

---
 .../tools/materialphysicalproperties/gases.py | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 0ba7812..d8f6f97 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -112,8 +112,8 @@ def _create_air():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -150,8 +150,8 @@ def _create_argon():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -187,8 +187,8 @@ def _create_ammonia():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -224,8 +224,8 @@ def _create_carbon_dioxide():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -262,8 +262,8 @@ def _create_carbon_monoxide():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -300,8 +300,8 @@ def _create_nitrogen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -338,8 +338,8 @@ def _create_oxygen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -376,8 +376,8 @@ def _create_water_vapour():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
-- 
2.43.0


From a622afed49daf1db6fc2daab1bb33f905395444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 55/57] fix: an activity without a start date runs from the
 first period again after an earlier start

prepare_to_run kept the start period of an earlier run when the start
date was taken away before the next run.
---
 auxi/modelling/business/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 70f14ad..b334cfb 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -99,7 +99,7 @@ class Activity(NamedObject):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
-        if self.start_period_ix == -1:
+        else:
             self.start_period_ix = 0
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
-- 
2.43.0


From 1984451057f89175561099669627e9f1a28d1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 56/57] fix: the bibliography keeps entries of types that
 BibTeX does not know

The report and online entries of the shipped bibliography were dropped.
---
 auxi/core/bibliography.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/core/bibliography.py b/auxi/core/bibliography.py
index b637ba8..317c6ee 100644
--- a/auxi/core/bibliography.py
+++ b/auxi/core/bibliography.py
@@ -5,6 +5,7 @@ This package provides auxi's bibliography, and tools to interact with it.
 
 
 import bibtexparser
+from bibtexparser.bparser import BibTexParser
 from os import path
 
 
@@ -30,7 +31,9 @@ class Database(object):
         with open(path) as file:
             bibtex_str = file.read()
 
-        bib_database = bibtexparser.loads(bibtex_str)
+        # Keep entries of types BibTeX does not know, e.g. report and online.
+        parser = BibTexParser(ignore_nonstandard_types=False)
+        bib_database = bibtexparser.loads(bibtex_str, parser)
         self._dict = bib_database.get_entry_dict()
 
     def __str__(self):
-- 
2.43.0


From 011fe7e5e5fb6daf66d05a28a7a9cf60d008d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:49 +0000
Subject: [PATCH 57/57] fix: thermochemical data is loaded from folders with [,
 ? or * in their path

---
 auxi/tools/chemistry/thermochemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 1f70bc2..02a1c72 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -731,7 +731,7 @@ def load_data_factsage(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.txt'))
+    files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.txt'))
 
     for file in files:
         compound = Compound(_read_compound_from_factsage_file_(file))
@@ -753,7 +753,7 @@ def load_data_auxi(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.json'))
+    files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.json'))
 
     for file in files:
         compound = Compound.read(file)
-- 
2.43.0

