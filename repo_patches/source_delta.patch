From 092e13252b7b06cd75a69e1d8c0f966048e63d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 01/49] fix: use the operating system's random source for
 state, nonce and PKCE values

'import SystemRandom' always fails (it is a class in random), so the
predictable Mersenne Twister was used.
---
 src/oidcrp/util.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..9180aab 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+from random import SystemRandom
 import ssl
 import string
 import sys
@@ -18,12 +19,6 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
-
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
 from oidcrp.exception import OidcServiceError
@@ -36,6 +31,8 @@ JOSE_ENCODED = "application/jose"
 
 logger = logging.getLogger(__name__)
 
+rnd = SystemRandom()
+
 __author__ = 'roland'
 
 DEFAULT_POST_CONTENT_TYPE = URL_ENCODED
-- 
2.43.0


From 86d85328f643e2803b70ccd330c77363d5b157ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 02/49] fix: removing a session removes its reverse mappings
 and nothing else

remove_state raised TypeError for a session without reverse mappings, left
the list of mappings behind and deleted mappings since bound to another
session.
---
 src/oidcrp/state_interface.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..87b549f 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -382,7 +382,12 @@ class StateInterface(ImpExp):
         :param state: Key to the state
         """
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
-        if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
+        _ref = "ref{}ref".format(state)
+        _refs = self._db.get(_ref)
+        if _refs:
+            for xtyp, _val in json.loads(_refs).items():
+                _key = KEY_PATTERN[xtyp].format(_val)
+                # the value may since have been bound to another state
+                if self._db.get(_key) == state:
+                    del self._db[_key]
+            del self._db[_ref]
-- 
2.43.0


From 0de83989d191d9d11fb6ccc51b68f75ce86d7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 03/49] fix: a response whose verification returns False is not
 accepted

E.g. an OpenID Connect authorization response with an 'aud' that does not
contain the client's identifier.
---
 src/oidcrp/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..3ca2f4d 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -563,7 +563,9 @@ class Service(ImpExp):
             LOGGER.debug("Verify response with %s", vargs)
             try:
                 # verify the message. If something is wrong an exception is thrown
-                resp.verify(**vargs)
+                # or False is returned
+                if resp.verify(**vargs) is False:
+                    raise ResponseError("Response verification failed")
             except Exception as err:
                 LOGGER.error(
                     'Got exception while verifying response: %s', err)
-- 
2.43.0


From 36dacfad897dee756a7b45f0f3cd43d86ae2e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 04/49] fix: a refresh response does not discard the refresh
 token and ID token in use

The response was stored in place of the token response, although every reader
looks for it as refresh_token_response, so a refresh without a new refresh
token made the next refresh impossible and the ID token was lost.
---
 .../oauth2/client_credentials/cc_refresh_access_token.py  | 8 +++++++-
 src/oidcrp/oauth2/refresh_access_token.py                 | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..aecd52d 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -52,4 +52,10 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        _state_interface = self.client_get("service_context").state
+        if 'refresh_token' not in resp:
+            # No new refresh token was issued, the one that was used remains valid.
+            for item_type in ['token_response', 'refresh_token_response']:
+                _state_interface.extend_request_args(resp, oauth2.AccessTokenResponse, item_type,
+                                                     key, ['refresh_token'])
+        _state_interface.store_item(resp, 'refresh_token_response', key)
diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..0144e6f 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -30,7 +30,13 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        _state_interface = self.client_get("service_context").state
+        if 'refresh_token' not in resp:
+            # No new refresh token was issued, the one that was used remains valid.
+            for item_type in ['token_response', 'refresh_token_response']:
+                _state_interface.extend_request_args(resp, oauth2.AccessTokenResponse, item_type,
+                                                     key, ['refresh_token'])
+        _state_interface.store_item(resp, 'refresh_token_response', key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
-- 
2.43.0


From 957b4e06fd647fd5811f6ad6237e2cf5f8d9a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 05/49] fix: user info is asked for with the session's access
 token when none is given

The token found in the session was never used, an empty one was sent on and
the request failed.
---
 src/oidcrp/rp_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..49118bc 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -594,6 +594,7 @@ class RPHandler(object):
             _arg = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
+            access_token = _arg['access_token']
 
         request_args = {'access_token': access_token}
 
-- 
2.43.0


From 24bd09f9d3ed4d1d4c735102a61c194d1543e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 06/49] fix: Basic authentication uses the standard base64
 alphabet (RFC 7617)

Credentials with a '~' could be encoded with '-', which is not in the alphabet
servers decode.
---
 src/oidcrp/client_auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..13cf852 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -79,7 +79,7 @@ class ClientSecretBasic(ClientAuthnMethod):
 
     The upshot of this is to construct an Authorization header that has the
     value 'Basic <token>' where <token> is username and password concatenated
-    together with a ':' in between and then URL safe base64 encoded.
+    together with a ':' in between and then base64 encoded.
 
     Note that both username and password
     """
@@ -118,7 +118,7 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From d72e936e032d850e44e79cf40d34a6d9ceba653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 07/49] fix: aggregated claims do not replace the verified
 subject identifier

'sub' was compared with the ID token before aggregated claims were unpacked
over the response.
---
 src/oidcrp/oidc/userinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..505e47c 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -93,7 +93,7 @@ class UserInfo(Service):
                     else:
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
-                                  src == csrc]
+                                  src == csrc and value != 'sub']
 
                         for key in claims:
                             response[key] = aggregated_claims[key]
-- 
2.43.0


From efa9f15983575a2cec52a15773ba335591137c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 08/49] fix: clients made from the default configuration do not
 share it

Issuer, behaviour and other values set for one provider ended up in the client
of another one.
---
 src/oidcrp/rp_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 49118bc..d71c34c 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,3 +1,4 @@
+import copy
 from inspect import currentframe
 import logging
 import sys
@@ -158,7 +159,8 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            # Clients must not share, and thereby change, each others configuration
+            _cnf = copy.deepcopy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
         try:
-- 
2.43.0


From a730e65810d3ed47eefd8f0a545db7dc17ddb619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 09/49] fix: an HTTP error or redirect is never stored as a
 successful response

A 4xx response whose body had no 'error' was verified and stored like a
success; a redirect was passed on to be stored.
---
 src/oidcrp/oauth2/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..aea31c2 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -176,7 +176,7 @@ class Client(Entity):
             response = self.get_response(service, url, method, body, response_body_type, headers,
                                          **kwargs)
 
-        if 'error' in response:
+        if 'error' in response or 'http_response' in response:
             pass
         else:
             try:
@@ -260,6 +260,10 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            if 'error' not in err_resp:
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From 87fe2976f1d7e6570bafc3e509c9f36a9b6258a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 10/49] fix: client assertions work for requests that do not
 define client_id

---
 src/oidcrp/client_auth.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 13cf852..60acff6 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -530,7 +530,12 @@ class JWSAuthnMethod(ClientAuthnMethod):
             pass
 
         # If client_id is not required to be present, remove it.
-        if not request.c_param["client_id"][VREQUIRED]:
+        try:
+            _req = request.c_param["client_id"][VREQUIRED]
+        except (KeyError, AttributeError):
+            _req = False
+
+        if not _req:
             try:
                 del request["client_id"]
             except KeyError:
-- 
2.43.0


From 5c39cc47ec581bda9ce1a85089df8909cbe338db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 11/49] fix: a registration without
 token_endpoint_auth_signing_alg does not prevent client assertions

---
 src/oidcrp/client_auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 60acff6..532966a 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -456,7 +456,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
             reg_resp = context.registration_response
             if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
+                algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
             else:
                 algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
                 if algorithm is None:
-- 
2.43.0


From d1e93cc09cd66f3b9a52402df04832751c9e6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 12/49] fix: OIDC authorization requests always have openid, a
 nonce that is indexed, and leave caller arguments and configuration alone

---
 src/oidcrp/oidc/authorization.py | 19 ++++++++++---------
 src/oidcrp/rp_handler.py         |  4 ++--
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 5845640..6550fc2 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -83,9 +83,7 @@ class Authorization(authorization.Authorization):
         if request_args is None:
             request_args = {}
 
-        try:
-            _response_types = [request_args["response_type"]]
-        except KeyError:
+        if "response_type" not in request_args:
             _response_types = _context.behaviour.get('response_types')
             if _response_types:
                 request_args["response_type"] = _response_types[0]
@@ -93,14 +91,17 @@ class Authorization(authorization.Authorization):
                 request_args["response_type"] = "code"
 
         # For OIDC 'openid' is required in scope
-        if 'scope' not in request_args:
-            request_args['scope'] = _context.behaviour.get("scope", ["openid"])
-        elif 'openid' not in request_args['scope']:
-            request_args['scope'].append('openid')
+        _scope = request_args.get('scope', _context.behaviour.get("scope", ["openid"]))
+        # a new list, what the caller or the behaviour holds must not change
+        _scope = _scope.split(' ') if isinstance(_scope, str) else list(_scope)
+        if 'openid' not in _scope:
+            _scope.append('openid')
+        request_args['scope'] = _scope
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-        if "code" in _response_types or "id_token" in _response_types:
+        _response_type = request_args["response_type"]
+        if "code" in _response_type or "id_token" in _response_type:
             if "nonce" not in request_args:
                 request_args["nonce"] = rndstr(32)
 
@@ -214,7 +215,7 @@ class Authorization(authorization.Authorization):
         """
         _context = self.client_get("service_context")
         if 'openid' in req['scope']:
-            _response_type = req['response_type'][0]
+            _response_type = ' '.join(req['response_type'])
             if 'id_token' in _response_type or 'code' in _response_type:
                 _context.state.store_nonce2state(req['nonce'], req['state'])
 
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index d71c34c..7e92175 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -401,9 +401,9 @@ class RPHandler(object):
 
         _req_args = _context.config.get("request_args")
         if _req_args:
-            if 'claims' in _req_args:
-                _req_args["claims"] = Claims(**_req_args["claims"])
             request_args.update(_req_args)
+            if 'claims' in _req_args:
+                request_args["claims"] = Claims(**_req_args["claims"])
 
         if req_args is not None:
             request_args.update(req_args)
-- 
2.43.0


From 703ce6d209ef53d8038fdbe89eb386f46b5560cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 13/49] fix: allow issuer_mismatch only when it is set to true

The mere presence of the key switched the issuer check off, also when its
value was False.
---
 src/oidcrp/oauth2/provider_info_discovery.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 4aa4033..1760f70 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -66,9 +66,7 @@ class ProviderInfoDiscovery(Service):
 
         # In some cases we can live with the two URLs not being
         # the same. But this is an excepted that has to be explicit
-        try:
-            self.client_get("service_context").allow['issuer_mismatch']
-        except KeyError:
+        if not self.client_get("service_context").allow.get('issuer_mismatch'):
             if _issuer != _pcr_issuer:
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
-- 
2.43.0


From 899528a582eaba7efc0144b84d978713eaf92bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 14/49] fix: match preferences with whole values and not with
 an earlier match

A default of the standard is a string, so a preference that is a part of that
string was taken as supported. And a value chosen in an earlier match stayed
when the provider doesn't support it (any more).
---
 src/oidcrp/oidc/provider_info_discovery.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 230ce27..7e76dff 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -116,6 +116,9 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
             except KeyError:
                 continue
 
+            # What was chosen in an earlier match doesn't count as a match now
+            _behaviour.pop(_pref, None)
+
             try:
                 _pvals = pcr[_prov]
             except KeyError:
@@ -129,6 +132,10 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
                             _pref))
                     _pvals = vals
 
+            if isinstance(_pvals, str):
+                # compare with whole values not with parts of the string
+                _pvals = [_pvals]
+
             if isinstance(vals, str):
                 if vals in _pvals:
                     _behaviour[_pref] = vals
-- 
2.43.0


From 49b7eb47c8c16220caaadd7e6127a4d4c205c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 15/49] fix: create a callback URI for response type 'code
 id_token'

The response type was misspelled, so a client that only uses that one had no
redirect URI to register.
---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From 601e9003e5e3b231d9fb108512c11f5501813f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 16/49] fix: use what the provider registered

The provider may register other values than those asked for, the behaviour
has to follow. A new client secret without expiry time does not inherit the
expiry time of an earlier one.
---
 src/oidcrp/oidc/registration.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 5611238..861bd17 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -6,6 +6,7 @@ from typing import Optional
 from cryptojwt.utils import as_bytes
 from oidcmsg import oidc
 from oidcmsg.oauth2 import ResponseMessage
+from oidcmsg.oidc import RegistrationRequest
 
 from oidcrp.service import Service
 
@@ -266,10 +267,15 @@ class Registration(Service):
         return request_args
 
     def update_service_context(self, resp, key='', **kwargs):
+        _context = self.client_get("service_context")
+        # The provider may have registered something else than what was asked for
+        for param in RegistrationRequest.c_param:
+            if param in _context.behaviour and param in resp:
+                _context.behaviour[param] = resp[param]
+
         if "token_endpoint_auth_method" not in resp:
             resp["token_endpoint_auth_method"] = "client_secret_basic"
 
-        _context = self.client_get("service_context")
         _context.registration_response = resp
         _client_id = resp.get("client_id")
         if _client_id:
@@ -284,10 +290,7 @@ class Registration(Service):
                 _context.client_secret = _client_secret
                 _context.keyjar.add_symmetric('', _client_secret)
                 _context.keyjar.add_symmetric(_client_id, _client_secret)
-                try:
-                    _context.client_secret_expires_at = resp["client_secret_expires_at"]
-                except KeyError:
-                    pass
+                _context.client_secret_expires_at = resp.get("client_secret_expires_at", 0)
 
         try:
             _context.registration_access_token = resp["registration_access_token"]
-- 
2.43.0


From b99f2bf2c646af931a980e3c478b0057202d0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 17/49] fix: read every cookie that was written, refuse the
 others as such

A value with '::' or, without encryption, '|' could be written but not read,
and neither could any cookie with a seed that isn't UTF-8. An encrypted
cookie that had been changed gave an InvalidTag exception of the crypto
library instead of InvalidCookieSign.
---
 src/oidcrp/cookie.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..5853f8a 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -7,6 +7,7 @@ import os
 import sys
 import time
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
 from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
@@ -221,9 +222,8 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     if not kaka:
         return None
 
-    seed = as_unicode(seed)
-
-    parts = cookie_parts(name, kaka)
+    # A load that is not encrypted may contain the separator
+    parts = cookie_parts(name, kaka, -1 if enc_key else 2)
     if parts is None:
         return None
     elif len(parts) == 3:
@@ -249,25 +249,26 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except (JWEException, InvalidTag):
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
 
 
-def cookie_parts(name, kaka):
+def cookie_parts(name, kaka, maxsplit=-1):
     """
     Give me the parts of the cookie payload
 
     :param name: A name of a cookie object
     :param kaka: The cookie
+    :param maxsplit: Split off at most this number of parts from the end
     :return: A list of parts or None if there is no cookie object with the
         given name
     """
     cookie_obj = SimpleCookie(as_unicode(kaka))
     morsel = cookie_obj.get(name)
     if morsel:
-        return morsel.value.split("|")
+        return morsel.value.rsplit("|", maxsplit)
     else:
         return None
 
@@ -386,7 +387,7 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
+                value, _ts, typ = info.rsplit("::", 2)
                 if timestamp == _ts:
                     return value, _ts, typ
         return None
-- 
2.43.0


From 02426c886c9043ccb3a204a1189536302a72fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 18/49] fix: a back-channel logout token with a session ID ends
 that session, not the subject's latest one

---
 src/oidcrp/rp_handler.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7e92175..59942ce 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -974,16 +974,19 @@ def backchannel_logout(client, request='', request_args=None):
     else:
         logger.debug("Request verified OK")
 
-    # Find the subject through 'sid' or 'sub'
+    # Find the session through 'sid' or 'sub'. A subject may have several sessions, the 'sid'
+    # tells which one it is about.
     sub = req[verified_claim_name('logout_token')].get('sub')
-    sid = None
-    if not sub:
-        sid = req[verified_claim_name('logout_token')].get('sid')
+    sid = req[verified_claim_name('logout_token')].get('sid')
 
     if not sub and not sid:
         raise MessageException('Neither "sid" nor "sub"')
-    elif sub:
-        _state = _context.state.get_state_by_sub(sub)
-    elif sid:
-        _state = _context.state.get_state_by_sid(sid)
-    return _state
+
+    if sid:
+        try:
+            return _context.state.get_state_by_sid(sid)
+        except KeyError:  # not a session ID that was remembered
+            if not sub:
+                raise
+
+    return _context.state.get_state_by_sub(sub)
-- 
2.43.0


From d8dc3df7ed7cdd098f24dc54a9c726173c9452bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 19/49] fix: a logout token has to be signed, also when ID
 tokens need not be

---
 src/oidcrp/rp_handler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 59942ce..c63a314 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -958,12 +958,15 @@ def backchannel_logout(client, request='', request_args=None):
         raise MissingRequiredAttribute('logout_token')
 
     _context = client.client_get("service_context")
+    _sign_alg = _context.get('registration_response').get("id_token_signed_response_alg", "RS256")
+    if _sign_alg == 'none':  # may be used for ID Tokens but not for Logout Tokens
+        _sign_alg = 'RS256'
+
     kwargs = {
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
         'keyjar': _context.keyjar,
-        'allowed_sign_alg': _context.get('registration_response').get(
-            "id_token_signed_response_alg", "RS256")
+        'allowed_sign_alg': _sign_alg
     }
 
     logger.debug(f"(backchannel_logout) Verifying request using: {kwargs}")
-- 
2.43.0


From 914b2a50ad66f974b1eb935b5fcd7ef7547d0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 20/49] fix: logout at a provider without end session service
 is an OidcServiceError

---
 src/oidcrp/rp_handler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c63a314..55e0b4d 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -907,9 +907,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From 66608d6994c5dd6fb1ebe7115cbb01ecc946bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 21/49] fix: finalize works without ID token and without a
 subject in the user info

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 55e0b4d..e4df500 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -812,7 +812,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From e8a5b43f8cce7b3c50322117b5231f34cb637607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 22/49] fix: no DPoP header for a provider that does not
 announce DPoP, instead of KeyError

---
 src/oidcrp/oauth2/add_on/dpop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..f125007 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -102,7 +102,7 @@ def dpop_header(service_context: ServiceContext,
     dpop_key = service_context.add_on['dpop'].get('key')
 
     if not dpop_key:
-        algs_supported = provider_info["dpop_signing_alg_values_supported"]
+        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
 
-- 
2.43.0


From 45b4360feefa2dee88abdfb53f64248b7f567727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 23/49] fix: DPoP keys fit the algorithm and are never
 symmetric

---
 src/oidcrp/oauth2/add_on/dpop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index f125007..1ba2b02 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -5,6 +5,7 @@ from cryptojwt.jwk.jwk import key_from_jwk_dict
 from cryptojwt.jws.jws import JWS
 from cryptojwt.jws.jws import factory
 from cryptojwt.key_bundle import key_by_alg
+from cryptojwt.key_bundle import key_gen
 from oidcmsg.message import Message
 from oidcmsg.message import SINGLE_REQUIRED_INT
 from oidcmsg.message import SINGLE_REQUIRED_JSON
@@ -108,7 +109,8 @@ def dpop_header(service_context: ServiceContext,
 
         chosen_alg = ''
         for alg in service_context.add_on['dpop']["sign_algs"]:
-            if alg in algs_supported:
+            # A proof shows the key, so it must not be a symmetric one
+            if alg in algs_supported and not alg.startswith("HS"):
                 chosen_alg = alg
                 break
 
@@ -116,7 +118,10 @@ def dpop_header(service_context: ServiceContext,
             return headers
 
         # Mint a new key
-        dpop_key = key_by_alg(chosen_alg)
+        if chosen_alg[:2] in ("RS", "PS"):
+            dpop_key = key_gen("RSA", alg=chosen_alg)
+        else:
+            dpop_key = key_by_alg(chosen_alg)
         service_context.add_on['dpop']['key'] = dpop_key
         service_context.add_on['dpop']['alg'] = chosen_alg
 
-- 
2.43.0


From 976de434aad4cda24f25bf58ddf0253ad8c5d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 24/49] fix: a DPoP proof names the URL the request is sent to

---
 src/oidcrp/oauth2/add_on/dpop.py |  2 +-
 src/oidcrp/service.py            | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 1ba2b02..c9c17ec 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -131,7 +131,7 @@ def dpop_header(service_context: ServiceContext,
         "jwk": dpop_key.serialize(),
         "jti": uuid.uuid4().hex,
         "htm": http_method,
-        "htu": provider_info[service_endpoint],
+        "htu": kwargs.get("endpoint") or provider_info[service_endpoint],
         "iat": utc_time_sans_frac()
     }
 
diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 3ca2f4d..c3b8e18 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -382,17 +382,20 @@ class Service(ImpExp):
         if _context.issuer:
             _args['iss'] = _context.issuer
 
-        # Client authentication by usage of the Authorization HTTP header
-        # or by modifying the request object
-        _headers = self.get_headers(request, http_method=method,
-                                    authn_method=authn_method, **_args)
-
         # Find out where to send this request
         try:
             endpoint_url = kwargs['endpoint']
         except KeyError:
             endpoint_url = self.get_endpoint()
 
+        # The headers may depend on it
+        _args['endpoint'] = endpoint_url
+
+        # Client authentication by usage of the Authorization HTTP header
+        # or by modifying the request object
+        _headers = self.get_headers(request, http_method=method,
+                                    authn_method=authn_method, **_args)
+
         _info['url'] = get_http_url(endpoint_url, request, method=method)
 
         # If there is to be a body part
-- 
2.43.0


From 403972ddb96b864ce53fe758dff2ca45d4d8a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 25/49] fix: WebFinger: an issuer link that is not https is
 refused however its scheme is written

---
 src/oidcrp/oidc/webfinger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index a442a36..bb4ac29 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -58,9 +58,11 @@ class WebFinger(Service):
                     except KeyError:
                         _http_allowed = False
 
-                    if _href.startswith('http://') and not _http_allowed:
+                    _scheme = urlsplit(_href)[SCHEME]
+                    if _scheme != 'https' and not (
+                            _scheme == 'http' and _http_allowed):
                         raise ValueError(
-                            'http link not allowed ({})'.format(_href))
+                            '{} link not allowed ({})'.format(_scheme, _href))
 
                     self.client_get("service_context").issuer = link['href']
                     break
-- 
2.43.0


From cb79d1526a248c1821117dbfca0cbd419df01855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 26/49] fix: WebFinger: an identifier without a host is refused

---
 src/oidcrp/oidc/webfinger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index bb4ac29..6e65aca 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -146,6 +146,10 @@ class WebFinger(Service):
                     authority = part[NETLOC]
                     resource = self.create_url(part, [FRAGMENT])
 
+        if not authority:
+            raise ValueError(
+                'No authority part in the resource specification')
+
         location = WF_URL.format(authority)
         return oidc.WebFingerRequest(
             resource=resource, rel=OIC_ISSUER).request(location)
-- 
2.43.0


From 3c4f150dd2cc61c0f691351a10ef2205c4909a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 27/49] fix: WebFinger: an empty fragment is not part of the
 resource

---
 src/oidcrp/oidc/webfinger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index 6e65aca..0ef0975 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -99,7 +99,7 @@ class WebFinger(Service):
                     _path = part[PATH]
                     if not part[QUERY] and not part[FRAGMENT]:
                         if '/' in _path or ':' in _path:
-                            resource = "https://{}".format(resource)
+                            resource = "https://{}".format(_path)
                             part = urlsplit(resource)
                             authority = part[NETLOC]
                         else:
-- 
2.43.0


From 8ded5b313261dc518c0aa2931d031aceeb97bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 28/49] fix: the query of an endpoint is kept, and never
 replaces a parameter of the request

---
 src/oidcrp/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 9180aab..e5e2382 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -110,7 +110,10 @@ def get_http_url(url, req, method='GET'):
             _req = req.copy()
             comp = urlsplit(str(url))
             if comp.query:
-                _req.update(parse_qs(comp.query))
+                # what the request says takes precedence
+                for key, val in parse_qs(comp.query, keep_blank_values=True).items():
+                    if key not in _req:
+                        _req[key] = val
 
             _query = str(_req.to_urlencoded())
             return urlunsplit((comp.scheme, comp.netloc, comp.path,
-- 
2.43.0


From d06f0f1f058b26e8b1acfebfe2390ec8b4941447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 29/49] fix: a client never changes the configuration it was
 made from

---
 src/oidcrp/rp_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index e4df500..1e9d0ef 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -157,9 +157,9 @@ class RPHandler(object):
         logger.debug(20 * "*" + " init_client " + 20 * "*")
 
         try:
-            _cnf = self.pick_config(issuer)
-        except KeyError:
             # Clients must not share, and thereby change, each others configuration
+            _cnf = copy.deepcopy(self.pick_config(issuer))
+        except KeyError:
             _cnf = copy.deepcopy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
-- 
2.43.0


From 6562ab355cde51482e94569e40f637a12bab2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 30/49] fix: a user of a provider that has a client gets that
 client

---
 src/oidcrp/rp_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 1e9d0ef..1430d40 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -332,13 +332,14 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            iss_id = temporary_client.client_get("service_context").get('issuer')
         else:
             temporary_client = None
 
         try:
             client = self.issuer2rp[iss_id]
         except KeyError:
-            if temporary_client:
+            if temporary_client and iss_id not in self.client_configs:
                 client = temporary_client
             else:
                 logger.debug("Creating new client: %s", iss_id)
-- 
2.43.0


From f1ac86df06b5d319b6fec131ccfe73a23ab5b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 31/49] fix: a provider known under two identifiers keeps its
 client

---
 src/oidcrp/rp_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 1430d40..c12d012 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -350,6 +350,11 @@ class RPHandler(object):
         logger.debug("Get provider info")
         issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
 
+        # The provider may already be served, under another identifier
+        if issuer in self.issuer2rp:
+            self.hash2issuer[iss_id] = issuer
+            return self.issuer2rp[issuer]
+
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-- 
2.43.0


From 743596bc76991c3e701fe369bc92a46eaec5d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 32/49] fix: init_services does not write into the service
 definitions

---
 src/oidcrp/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c3b8e18..a1cc207 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -628,7 +628,8 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     service = DLDict()
     for service_name, service_configuration in service_definitions.items():
         try:
-            kwargs = service_configuration['kwargs']
+            # the definitions may be used by more than one client
+            kwargs = dict(service_configuration['kwargs'])
         except KeyError:
             kwargs = {}
 
-- 
2.43.0


From d30ca216c3b2acc2c8adb75ed49e1d87be5a4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 33/49] fix: a pushed request object is from this client to the
 provider, signed as configured

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..53491c1 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -22,8 +22,11 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
-        _jws = _jwt.pack(request_args.to_dict())
+        # From this client, signed with its keys, to the provider
+        _jwt = JWT(key_jar=_context.keyjar, iss=_context.client_id,
+                   sign_alg=method_args["signing_algorithm"])
+        _jws = _jwt.pack(request_args.to_dict(),
+                         recv=_context.provider_info.get("issuer", _context.issuer))
 
         _msg = Message(request=_jws)
         if method_args["merge_rule"] == "lax":
-- 
2.43.0


From 1d1bb65c72b2dcc7734dfccadc715dd16a2acc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 34/49] fix: a failed push of the authorization request is an
 error

---
 .../oauth2/add_on/pushed_authorization.py     | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 53491c1..777e8c6 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -5,6 +5,8 @@ from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
 import requests
 
+from oidcrp.exception import OidcServiceError
+
 logger = logging.getLogger(__name__)
 
 
@@ -40,15 +42,17 @@ def push_authorization(request_args, service, **kwargs):
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
-    if resp.status_code == 200:
-        _resp = Message().from_json(resp.text)
-        _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
-        if method_args["merge_rule"] == "lax":
-            for param in request_args.required_parameters():
-                _req[param] = request_args.get(param)
-        request_args = _req
+    if resp.status_code not in [200, 201]:
+        raise OidcServiceError("Pushing the authorization request failed: %s [%s]" % (
+            resp.text, resp.status_code))
+
+    _resp = Message().from_json(resp.text)
+    _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
+    if method_args["merge_rule"] == "lax":
+        for param in request_args.required_parameters():
+            _req[param] = request_args.get(param)
 
-    return request_args
+    return _req
 
 
 def add_support(services, body_format="jws", signing_algorithm="RS256",
-- 
2.43.0


From 0ff352c8a260e4c75ad3465f2084f455d5a90f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 35/49] fix: a pushed request identifies the client and is made
 with any merge rule

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 777e8c6..6a443be 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -30,7 +30,8 @@ def push_authorization(request_args, service, **kwargs):
         _jws = _jwt.pack(request_args.to_dict(),
                          recv=_context.provider_info.get("issuer", _context.issuer))
 
-        _msg = Message(request=_jws)
+        _msg = JWTSecuredAuthorizationRequest(request=_jws)
+        _msg.lax = True
         if method_args["merge_rule"] == "lax":
             for param in request_args.required_parameters():
                 _msg[param] = request_args.get(param)
@@ -47,7 +48,10 @@ def push_authorization(request_args, service, **kwargs):
             resp.text, resp.status_code))
 
     _resp = Message().from_json(resp.text)
-    _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
+    _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"],
+                                          client_id=request_args["client_id"])
+    # What an authorization request otherwise requires is in what was pushed
+    _req.lax = True
     if method_args["merge_rule"] == "lax":
         for param in request_args.required_parameters():
             _req[param] = request_args.get(param)
-- 
2.43.0


From 36f4f380d00a7177554fa433cc09820e6414e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 36/49] fix: request objects are encrypted to the provider when
 no target is given

---
 src/oidcrp/oidc/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/oidc/utils.py b/src/oidcrp/oidc/utils.py
index 9605733..aa1e02b 100644
--- a/src/oidcrp/oidc/utils.py
+++ b/src/oidcrp/oidc/utils.py
@@ -49,17 +49,17 @@ def request_object_encryption(msg, service_context, **kwargs):
     except KeyError:
         _kid = ""
 
-    if "target" not in kwargs:
+    # Unless something else is said the provider is the one that should read it
+    _target = kwargs.get("target") or service_context.provider_info.get(
+        "issuer", service_context.issuer)
+    if not _target:
         raise MissingRequiredAttribute("No target specified")
 
     if _kid:
-        _keys = service_context.keyjar.get_encrypt_key(_kty,
-                                                       issuer_id=kwargs["target"],
-                                                       kid=_kid)
+        _keys = service_context.keyjar.get_encrypt_key(_kty, issuer_id=_target, kid=_kid)
         _jwe["kid"] = _kid
     else:
-        _keys = service_context.keyjar.get_encrypt_key(_kty,
-                                                       issuer_id=kwargs["target"])
+        _keys = service_context.keyjar.get_encrypt_key(_kty, issuer_id=_target)
 
     return _jwe.encrypt(_keys)
 
-- 
2.43.0


From 6d9df5a08535d97764e3b4efeaf22a48644de52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 37/49] fix: jwks_uri and registration access token are part of
 what is saved

---
 src/oidcrp/service_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..45caad7 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -102,12 +102,14 @@ class ServiceContext(OidcContext):
         "hash2issuer": None,
         "httpc_params": None,
         'issuer': None,
+        "jwks_uri": None,
         "kid": None,
         "post_logout_redirect_uris": None,
         'provider_info': None,
         'redirect_uris': None,
         "requests_dir": None,
         "register_args": None,
+        "registration_access_token": None,
         'registration_response': None,
         'state': StateInterface,
         'verify_args': None
-- 
2.43.0


From e5de6bc8933d72ce5fe82bd516b384537b34b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 38/49] fix: received provider and registration metadata can be
 saved

---
 src/oidcrp/service_context.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 45caad7..b75a38d 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -9,7 +9,10 @@ import os
 from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.utils import as_bytes
+from cryptojwt.utils import importer
+from cryptojwt.utils import qualified_name
 from oidcmsg.context import OidcContext
+from oidcmsg.message import Message
 from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
@@ -65,6 +68,25 @@ DEFAULT_VALUE = {
 }
 
 
+def dump_metadata(item, exclude_attributes=None):
+    """
+    Metadata are a dictionary if configured, a Message instance if received.
+    """
+    if isinstance(item, Message):
+        return [qualified_name(item.__class__), item.to_dict()]
+    return item
+
+
+def load_metadata(item, init_args=None, load_args=None):
+    """
+    The inverse of dump_metadata.
+    """
+    if isinstance(item, list):
+        _class, _info = item
+        return importer(_class)().from_dict(_info)
+    return item
+
+
 # def add_issuer(conf, issuer):
 #     res = {}
 #     for key, val in conf.items():
@@ -115,6 +137,11 @@ class ServiceContext(OidcContext):
         'verify_args': None
     })
 
+    special_load_dump = {
+        'provider_info': {"dump": dump_metadata, "load": load_metadata},
+        'registration_response': {"dump": dump_metadata, "load": load_metadata}
+    }
+
     def __init__(self, base_url="", keyjar=None, config=None, state=None, **kwargs):
         if config is None:
             config = {}
-- 
2.43.0


From 04f3747f82b47808b7943ba71c97a1d4ceb99f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 39/49] fix: removing a session removes every value that was
 bound to it

---
 src/oidcrp/state_interface.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index 87b549f..77173bf 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -248,11 +248,10 @@ class StateInterface(ImpExp):
         except KeyError:
             _val = None
 
-        if _val is None:
-            refs = {xtyp: value}
-        else:
-            refs = json.loads(_val)
-            refs[xtyp] = value
+        refs = {} if _val is None else json.loads(_val)
+        # More than one value of a type may lead to the state
+        if value not in refs.setdefault(xtyp, []):
+            refs[xtyp].append(value)
         self._db["ref{}ref".format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
@@ -385,9 +384,10 @@ class StateInterface(ImpExp):
         _ref = "ref{}ref".format(state)
         _refs = self._db.get(_ref)
         if _refs:
-            for xtyp, _val in json.loads(_refs).items():
-                _key = KEY_PATTERN[xtyp].format(_val)
-                # the value may since have been bound to another state
-                if self._db.get(_key) == state:
-                    del self._db[_key]
+            for xtyp, _vals in json.loads(_refs).items():
+                for _val in _vals:
+                    _key = KEY_PATTERN[xtyp].format(_val)
+                    # the value may since have been bound to another state
+                    if self._db.get(_key) == state:
+                        del self._db[_key]
             del self._db[_ref]
-- 
2.43.0


From 64f0e9063c275a02432afe20dc8c8f552ae5f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 40/49] fix: taking a token out of a request leaves its message
 class as it is

find_token declared the token parameter optional in the class attribute
c_param, so after one request with a bearer token every later request of
that class was sent even if it lacked the token.
---
 src/oidcrp/client_auth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 532966a..bb9199e 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -259,8 +259,9 @@ def find_token(request, token_type, service, **kwargs):
             pass
         else:
             del request[token_type]
-            # Required under certain circumstances :-) not under other
-            request.c_param[token_type] = SINGLE_OPTIONAL_STRING
+            # Required under certain circumstances :-) not under other.
+            # Only for this request, c_param belongs to all messages of the class
+            request.c_param = {**request.c_param, token_type: SINGLE_OPTIONAL_STRING}
             return _token
 
     try:
-- 
2.43.0


From 4879588735c12bde5cb2e106a8601c36f2823439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 41/49] fix: a client that sessions are bound to is not
 replaced by one set up at the same time

---
 src/oidcrp/rp_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c12d012..373d3fd 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -358,8 +358,9 @@ class RPHandler(object):
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-        self.issuer2rp[issuer] = client
-        return client
+        # Another request may have set up a client for the same provider meanwhile,
+        # sessions may already be bound to that one
+        return self.issuer2rp.setdefault(issuer, client)
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
         if req_args:
-- 
2.43.0


From cf4cfd53de20139224262e123a0b5e29c5c58fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 42/49] fix: a source of distributed claims cannot replace the
 verified subject

---
 src/oidcrp/oidc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..3046bd0 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -163,8 +163,10 @@ class RP(oauth2.Client):
                             'HTTP error {}: {}'.format(_resp.status_code,
                                                        _resp.reason))
 
+                    # A source can never replace the verified subject
                     claims = [value for value, src in
-                              userinfo["_claim_names"].items() if src == csrc]
+                              userinfo["_claim_names"].items() if
+                              src == csrc and value != 'sub']
 
                     if set(claims) != set(_uinfo.keys()):
                         logger.warning(
-- 
2.43.0


From 2600ca27ba00b830895901195f75f1788f631a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 43/49] fix: the configured transport settings apply to
 fetching keys too

---
 src/oidcrp/entity.py          |  2 ++
 src/oidcrp/rp_handler.py      |  4 ++--
 src/oidcrp/service_context.py |  2 +-
 src/oidcrp/util.py            | 13 +++++++++++++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/entity.py b/src/oidcrp/entity.py
index 69dffd6..6d05656 100644
--- a/src/oidcrp/entity.py
+++ b/src/oidcrp/entity.py
@@ -8,6 +8,7 @@ from oidcrp.client_auth import factory
 from oidcrp.configure import Configuration
 from oidcrp.service import init_services
 from oidcrp.service_context import ServiceContext
+from oidcrp.util import set_httpc_params
 
 DEFAULT_SERVICES = {
     "discovery": {
@@ -41,6 +42,7 @@ class Entity():
 
         self._service_context = ServiceContext(keyjar=keyjar, config=config,
                                                jwks_uri=jwks_uri, httpc_params=self.httpc_params)
+        set_httpc_params(self._service_context.keyjar, self.httpc_params)
 
         _cam = client_authn_factory or factory
 
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 373d3fd..b568b02 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -35,6 +35,7 @@ from .oauth2.utils import pick_redirect_uri
 from .util import add_path
 from .util import load_registration_response
 from .util import rndstr
+from .util import set_httpc_params
 
 logger = logging.getLogger(__name__)
 
@@ -99,8 +100,7 @@ class RPHandler(object):
         else:
             self.httpc_params = httpc_params
 
-        if not self.keyjar.httpc_params:
-            self.keyjar.httpc_params = self.httpc_params
+        set_httpc_params(self.keyjar, self.httpc_params)
 
     def state2issuer(self, state):
         """
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index b75a38d..c775d0e 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -290,7 +290,7 @@ class ServiceContext(OidcContext):
                             self.keyjar.add_kb('', _bundle)
             elif where == 'url':
                 for iss, url in spec.items():
-                    _bundle = KeyBundle(source=url)
+                    _bundle = KeyBundle(source=url, httpc_params=dict(self.httpc_params))
                     self.keyjar.add_kb(iss, _bundle)
 
     def get_sign_alg(self, typ):
diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index e5e2382..e9b1e9f 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -522,6 +522,19 @@ def get_http_params(config):
     return params
 
 
+def set_httpc_params(keyjar, httpc_params):
+    """
+    Make a key jar fetch keys the same way as everything else is fetched, unless it has
+    settings of its own. A timeout doesn't count, every key jar has got one by default.
+
+    :param keyjar: A :py:class:`cryptojwt.key_jar.KeyJar` instance
+    :param httpc_params: HTTP request arguments
+    """
+    _params = keyjar.httpc_params or {}
+    if set(_params) <= {'timeout'}:
+        keyjar.httpc_params = dict(_params, **httpc_params)
+
+
 def add_path(url, path):
     if url.endswith('/'):
         if path.startswith('/'):
-- 
2.43.0


From a52a8604944212ccd2e04191f84dd72db8aaede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:03 +0000
Subject: [PATCH 44/49] fix: a client has transport settings of its own

---
 src/oidcrp/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/entity.py b/src/oidcrp/entity.py
index 6d05656..e5879c2 100644
--- a/src/oidcrp/entity.py
+++ b/src/oidcrp/entity.py
@@ -36,7 +36,7 @@ class Entity():
                  httpc_params: Optional[dict] = None):
 
         if httpc_params:
-            self.httpc_params = httpc_params
+            self.httpc_params = dict(httpc_params)
         else:
             self.httpc_params = {"verify": True}
 
-- 
2.43.0


From eacd21d0e3269ac82e60b248f80dd32a098d892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 45/49] fix: a default does not hide a setting given in upper
 case

---
 src/oidcrp/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index e9b1e9f..7f03432 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -407,7 +407,7 @@ def has_method(o, name):
 
 
 def lower_or_upper(config, param, default=None):
-    res = config.get(param.lower(), default)
+    res = config.get(param.lower())
     if not res:
         res = config.get(param.upper(), default)
     return res
-- 
2.43.0


From f3128d71057a4efdc2a4a48307805f837f8e8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:16 +0000
Subject: [PATCH 46/49] fix: an ID token from a refresh is verified like any
 other and keeps the subject

---
 src/oidcrp/oidc/access_token.py         | 18 ++++++++++++++++++
 src/oidcrp/oidc/refresh_access_token.py | 24 ++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 8a2b215..12eb511 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -16,6 +16,21 @@ __author__ = 'Roland Hedberg'
 LOGGER = logging.getLogger(__name__)
 
 
+def verify_subject(state_interface, id_token, key, item_types):
+    """
+    Verifies that an ID Token is about the same subject as the ID Token the session has got.
+
+    :param state_interface: A :py:class:`oidcrp.state_interface.StateInterface` instance
+    :param id_token: A verified ID Token
+    :param key: The session key
+    :param item_types: Where in the session the earlier ID Token may be, later ones have precedence
+    """
+    _name = verified_claim_name('id_token')
+    _args = state_interface.multiple_extend_request_args({}, key, [_name], item_types, orig=True)
+    if _name in _args and _args[_name]['sub'] != id_token['sub']:
+        raise ParameterError('The ID Token is about another subject')
+
+
 class AccessToken(access_token.AccessToken):
     msg_type = oidc.AccessTokenRequest
     response_cls = oidc.AccessTokenResponse
@@ -80,6 +95,9 @@ class AccessToken(access_token.AccessToken):
             except KeyError:
                 raise ValueError('Invalid nonce value')
 
+
+            # must be about the same subject as an ID Token in the authorization response
+            verify_subject(_state_interface, _idt, key, ['auth_response'])
             _state_interface.store_sub2state(_idt['sub'], key)
 
         if 'expires_in' in resp:
diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..66bacc6 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,9 @@
 from oidcmsg import oidc
+from oidcmsg.oidc import verified_claim_name
 
+from oidcrp.exception import ParameterError
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc import access_token
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +11,27 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    # An ID Token is verified the same way wherever it is received
+    gather_verify_arguments = access_token.AccessToken.gather_verify_arguments
+
+    def update_service_context(self, resp, key='', **kwargs):
+        _state_interface = self.client_get("service_context").state
+        _idt = resp.get(verified_claim_name('id_token'))
+        if _idt:
+            # There doesn't have to be a nonce in an ID Token that is the result of a refresh
+            if 'nonce' in _idt:
+                try:
+                    if _state_interface.get_state_by_nonce(_idt['nonce']) != key:
+                        raise ParameterError('Someone has messed with "nonce"')
+                except KeyError:
+                    raise ValueError('Invalid nonce value')
+
+            access_token.verify_subject(
+                _state_interface, _idt, key,
+                ['auth_response', 'token_response', 'refresh_token_response'])
+
+        refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key, **kwargs)
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
-- 
2.43.0


From e13f9a1268667c71c4c294de486f8c9cca8b407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:32 +0000
Subject: [PATCH 47/49] fix: an empty response is refused before anything of it
 is stored

---
 src/oidcrp/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index a1cc207..978b825 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -574,7 +574,9 @@ class Service(ImpExp):
                     'Got exception while verifying response: %s', err)
                 raise
 
-            resp = self.post_parse_response(resp, state=state)
+            # a response without any content must not leave anything behind
+            if resp:
+                resp = self.post_parse_response(resp, state=state)
 
         if not resp:
             LOGGER.error('Missing or faulty response')
-- 
2.43.0


From b3247b9807eda009d31b0ea6b0a5653fa74b5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:11 +0000
Subject: [PATCH 48/49] fix: a refresh without an ID token does not discard the
 ID token of an earlier refresh

---
 src/oidcrp/oidc/refresh_access_token.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index 66bacc6..b9608f5 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -29,6 +29,11 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
             access_token.verify_subject(
                 _state_interface, _idt, key,
                 ['auth_response', 'token_response', 'refresh_token_response'])
+        else:
+            # No new ID Token was issued, the one from an earlier refresh remains available.
+            _state_interface.extend_request_args(
+                resp, oidc.AccessTokenResponse, 'refresh_token_response', key,
+                ['id_token', verified_claim_name('id_token')], orig=True)
 
         refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key, **kwargs)
 
-- 
2.43.0


From c9c7b853a00c00a2a8cbeb77b5651622a704c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:41 +0000
Subject: [PATCH 49/49] fix: a client secret that was replaced by a new
 registration is not used any more

---
 src/oidcrp/oidc/registration.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 861bd17..e8318be 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -217,6 +217,26 @@ def add_jwks_uri_or_jwks(request_args=None, service=None, **kwargs):
     return request_args, {}
 
 
+def forget_secret(keyjar, secret, owners):
+    """
+    Remove the keys made from a client secret that is no longer used.
+
+    :param keyjar: A :py:class:`cryptojwt.key_jar.KeyJar` instance
+    :param secret: The client secret
+    :param owners: Those the keys belong to
+    """
+    if not secret:
+        return
+
+    for _owner in owners:
+        if _owner not in keyjar:
+            continue
+        for _bundle in keyjar[_owner]:
+            for _key in _bundle.get('oct'):
+                if _key.key == as_bytes(secret):
+                    _bundle.remove(_key)
+
+
 class Registration(Service):
     msg_type = oidc.RegistrationRequest
     response_cls = oidc.RegistrationResponse
@@ -279,6 +299,9 @@ class Registration(Service):
         _context.registration_response = resp
         _client_id = resp.get("client_id")
         if _client_id:
+            if resp.get("client_secret"):
+                # A secret received in an earlier registration is replaced
+                forget_secret(_context.keyjar, _context.client_secret, ['', _client_id])
             _context.client_id = _client_id
             if _client_id not in _context.keyjar:
                 _context.keyjar.import_jwks(
-- 
2.43.0

