From 05019d5d4b4321aac217f242284434aa7e3afb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 1/4] fix: let the manager fund an inactive converter

tokenFallback compared the sender with the getManager method itself instead of
the manager's address, so a manager's connector deposit was always rejected.
---
 contracts/converter/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 197ff2d..ebaca2c 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -228,7 +228,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_positive_value(_value)
         from_token = self.msg.sender
 
-        if (_from == self.getOwner() or _from == self.getManager) \
+        if (_from == self.getOwner() or _from == self.getManager()) \
                 and self._connectors[from_token].is_set.get() \
                 and not self._is_active():
             # If the token sender is the owner and sent token is a connector token, receives tokens
-- 
2.43.0


From 032145d393c54ee97ed514cbad5f61ec87e832dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 2/4] fix: make the deployer of a converter its first manager

Converter.on_install never ran Managed.on_install, so a freshly deployed
converter had no manager (getManager returned nothing).
---
 contracts/converter/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index ebaca2c..d355130 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -194,6 +194,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_valid_address(_registry)
         self._require_valid_max_conversion_fee(_maxConversionFee)
         FlexibleTokenController.on_install(self, _token)
+        Managed.on_install(self)
 
         self._allow_registry_update.set(True)
         self._registry.set(_registry)
-- 
2.43.0


From cd07a90ac1fb55e095764d42cacb0a0be70ca1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 3/4] fix: price conversions on the full virtual balance

With virtual balance enabled the connector balance used for pricing does not
include the deposit yet, so subtracting the deposit during a conversion made
trades execute at a better price than quoted (and divide by zero for large ones).
---
 contracts/converter/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index d355130..8cd8367 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -449,7 +449,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
 
         token_supply = flexible_token.totalSupply()
         connector_balance = self.getConnectorBalance(connector_token)
-        if from_conversion:
+        # the deposit has already arrived in the actual balance, but not in the virtual balance
+        if from_conversion and not connector.is_virtual_balance_enabled.get():
             connector_balance -= amount
 
         calculated_amount = formula.calculate_purchase_return(
@@ -503,7 +504,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
 
         from_connector_balance = self.getConnectorBalance(from_token)
-        if from_conversion:
+        # the deposit has already arrived in the actual balance, but not in the virtual balance
+        if from_conversion and not from_connector.is_virtual_balance_enabled.get():
             from_connector_balance -= amount
         to_connector_balance = self.getConnectorBalance(to_token)
 
-- 
2.43.0


From e235e4d8d5420f5c8e5accebfd709f48f3ce9a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:45 +0000
Subject: [PATCH 4/4] fix: hand out a copy of the registry's score ids

---
 contracts/score_registry/score_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/score_registry/score_registry.py b/contracts/score_registry/score_registry.py
index b4880d3..33a0854 100644
--- a/contracts/score_registry/score_registry.py
+++ b/contracts/score_registry/score_registry.py
@@ -48,7 +48,7 @@ class ScoreRegistry(Owned, ABCScoreRegistry):
 
     @external(readonly=True)
     def getScoreIds(self) -> list:
-        return self.SCORE_KEYS
+        return list(self.SCORE_KEYS)
 
     @external
     def registerAddress(self, _scoreName: str, _scoreAddress: Address):
-- 
2.43.0

