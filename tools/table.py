"""The properties.  `prop` and `SRC` are injected by gen.py."""
SI = SRC + 'state_interface.py'
RH = SRC + 'rp_handler.py'
SV = SRC + 'service.py'
SC = SRC + 'service_context.py'
CA = SRC + 'client_auth.py'

prop('C01', 'A session returns exactly what was stored in it, and no other session changes',
     'Reading an item of a session gives the parameters and values last stored under that name in that session, '
     'and the issuer the session was created for. An unknown session, or an item never stored, is an error or an '
     'empty result, never the data of something else. Storing in one session changes no other session, and '
     'filling a request from stored items never changes those items nor parameters outside the ones asked for.',
     ['inputs', 'histories'],
     'every issuer, session key, item name and stored message; any other content of the store',
     'Tests store one or two fixed messages; the guarantee is over all keys, values and the rest of the store.',
     [('create_state/get_iss/get_state/store_item/get_item', SI + ':StateInterface'),
      ('extend_request_args/multiple_extend_request_args', SI + ':StateInterface'),
      ('in-memory store', SI + ':InMemoryStateDataBase')],
     [('_db', 'serialised session records by key', SI + ':StateInterface')],
     ['StateInterface.get_item', 'StateInterface.get_iss'])

prop('C02', 'Reverse lookups lead to the session a value was bound to',
     'Looking up a nonce, subject, provider session id, logout state or other bound value gives the session it was '
     'last bound to. A value never bound is an error. The kinds of value do not interfere with each other, and '
     'binding or storing never redirects a different value.',
     ['inputs', 'histories'],
     'every value, session key and kind; any two bindings in any order; any other content of the store',
     'Tests bind fixed distinct values; collisions between kinds, values and keys are never sampled.',
     [('store_X2state/get_state_by_X', SI + ':StateInterface')],
     [('_db', 'reverse index entries share the store with the sessions', SI)],
     ['StateInterface.get_state_by_nonce', 'get_state_by_sub', 'get_state_by_sid', 'get_state_by_logout_state'])

prop('C03', 'Removing a session removes its data and its reverse mappings, nothing else',
     'After a session has been removed, nothing stored in it can be read and none of the values bound to it leads '
     'anywhere. All other sessions and the bindings that lead to them are unchanged. A session key that is used '
     'again starts empty.',
     ['inputs', 'histories'],
     'every session key and binding, also values re-bound to another session before the removal',
     'Tests remove one session with one binding.',
     [('remove_state', SI + ':StateInterface.remove_state')],
     [('_db', 'sessions and reverse index', SI)], ['StateInterface._db'])

prop('C04', 'A response is only used with the provider the session was started with',
     'An authorization response received on the callback of a provider is accepted only if its state names a '
     'session that was started with that provider. A response that is refused, or that is an error, changes no '
     'session and triggers no request, so no code or token is sent to any provider. An accepted response leads to '
     'requests to that provider only.',
     ['inputs', 'configurations'],
     'every issuer, state and response; several sessions and providers in any combination',
     'Tests use one provider per handler call and one fixed wrong issuer.',
     [('finalize_auth', RH + ':RPHandler.finalize_auth'), ('finalize', RH + ':RPHandler.finalize'),
      ('get_iss', SI + ':StateInterface.get_iss')],
     [('issuer in session record', 'written when the session is created', SI)],
     ['RPHandler.finalize'])

prop('C05', 'An ID token is accepted only with the nonce of the session it arrives in',
     'An ID token that arrives with an authorization response or a token response is accepted only if it carries '
     'the nonce sent in the authorization request of the very session the response belongs to. A missing nonce, a '
     'nonce of another session or an unknown nonce is refused. An ID token that comes with a refresh (where a nonce '
     'is optional) is about the subject of the session\'s earlier ID token, and one from the token endpoint about the '
     'subject of the one in the authorization response.',
     ['inputs', 'histories'],
     'every nonce, state and combination of sessions; front channel and back channel',
     'Tests use one session at a time, so a nonce of another live session is never presented.',
     [('front channel', SRC + 'oidc/authorization.py:Authorization.post_parse_response'),
      ('back channel', SRC + 'oidc/access_token.py:AccessToken.update_service_context'),
      ('refresh', SRC + 'oidc/refresh_access_token.py:RefreshAccessToken.update_service_context'),
      ('nonce index', SI + ':StateInterface.store_nonce2state')],
     (), ['Service.parse_response', 'Service.update_service_context'])

prop('C06', 'ID tokens and responses are accepted only if addressed to this client by its issuer',
     'An ID token is accepted only if its signature verifies with a key of the session\'s issuer, its issuer is that '
     'issuer, its audience (and authorized party) is this client, it is not expired, its issue time is acceptable '
     'within the configured clock skew and its signing algorithm is the registered one; an unsigned token is '
     'accepted only if that was registered. A token for which all of that holds is accepted. A response that names another issuer or client is refused. Claims that '
     'only verification may add do not survive when the other side sends them.',
     ['inputs', 'configurations'],
     'every claim value, time, algorithm and client registration',
     'Tests verify a few good tokens; the acceptance condition is over all claim values.',
     [('arguments of verification', SRC + 'oidc/authorization.py:Authorization.gather_verify_arguments'),
      ('arguments of verification', SRC + 'oidc/access_token.py:AccessToken.gather_verify_arguments'),
      ('response parsing', SV + ':Service.parse_response')],
     (), ['Service.parse_response'],
     'The JOSE library (signature check, key lookup by issuer) is an assumed contract; oidcmsg is executed. ')

prop('C07', 'Only a successful HTTP exchange with a valid body counts as a response',
     'What a provider sends is stored in the session, and returned as a response, only if the HTTP status is a '
     'success status and the body is a complete, well-formed response of the expected kind without an error. An '
     'error status, a redirect, an error body, garbage, or a failing connection gives an exception or an error '
     'result to the caller and leaves every session as it was.',
     ['inputs', 'faults'],
     'every status code, content type, body format and parameter values; any exception of the HTTP library',
     'Tests feed a few (status, body) pairs; the rule is over the whole product.',
     [('get_response/parse_request_response/service_request', SRC + 'oauth2/__init__.py:Client'),
      ('parse_response', SV + ':Service.parse_response'),
      ('content type dispatch', SRC + 'util.py:get_deserialization_method')],
     (), ['Client.service_request'])

prop('C08', 'Client credentials are placed in a request as the authentication method says',
     'With client_secret_basic the identifier and secret are form-encoded, joined by a colon and base64-encoded in '
     'the Authorization header, and the secret is not in the body. With client_secret_post they are in the body. '
     'With a bearer method the access token of the session is in the header or the body, nowhere else. The '
     'credentials are those registered for this client unless others are given (in the call for basic, in the '
     'request for post). A post or bearer method that lacks its credential is an error, never a request without it, '
     'and every other request parameter is left alone. Without a method in the call, the one agreed with the '
     'provider is used.',
     ['inputs', 'configurations'],
     'every identifier, secret, token, request and way to pass credentials',
     'Tests use plain ASCII credentials, for which wrong encodings look right.',
     [('ClientSecretBasic/ClientSecretPost/BearerHeader/BearerBody', CA),
      ('authentication method selection', SV + ':Service.init_authentication_method')],
     (), ['ClientAuthnMethod.construct'])

prop('C09', 'A client assertion identifies this client to this server, once and for a short time',
     'A JWT client assertion has this client as issuer and subject, the server it is sent to (its token endpoint, or '
     'the issuer where configured) as audience, a fresh identifier, an issue time of now and an expiry within the '
     'configured lifetime. It is signed with the algorithm that was asked for or registered and with a key of this '
     'client that fits the algorithm: the secret for HMAC, a private key otherwise, never the "none" algorithm. '
     'Without such a key there is no request. The assertion and its type are in the request body.',
     ['inputs', 'configurations'],
     'every client id, endpoint, algorithm, lifetime, time and key set',
     'Tests make one assertion with one key.',
     [('ClientSecretJWT/PrivateKeyJWT', CA + ':JWSAuthnMethod'),
      ('assertion_jwt', CA + ':assertion_jwt')],
     (), ['JWSAuthnMethod.construct'],
     'The signing function of the JOSE library is an assumed contract: a token carries exactly the claims, algorithm '
     'and key handed to it. ')

prop('C10', 'An access token is only sent for the session it was issued to',
     'A request that needs an access token (user info, bearer authentication) carries the access token of the session '
     'it is made for: the one given in the call, else the most recently obtained valid one of that session. Never '
     'the token of another session; without a token of the session it is an error. Likewise a session check carries '
     'the ID token of its session, and the registration access token goes only to where the registration is read.',
     ['inputs', 'histories'],
     'every set of stored responses, tokens and sessions',
     'Tests have one session with one token.',
     [('find_token/BearerHeader/BearerBody', CA), ('user info request', SRC + 'oidc/userinfo.py:UserInfo'),
      ('get_user_info', RH + ':RPHandler.get_user_info')],
     (), ['BearerHeader.construct', 'RPHandler.get_user_info'])

prop('C11', 'PKCE binds the token request to the authorization request',
     'With PKCE switched on every authorization request carries a challenge that is the transformation, under the '
     'method it names, of a fresh random verifier of the configured length, made of unreserved characters; the verifier never appears in '
     'the authorization request; the token request of the same session carries exactly that verifier, and that of '
     'another session never does. An unsupported method is an error.',
     ['inputs', 'histories'],
     'every configured verifier length and method; several sessions in any order',
     'Tests do one session with one length.',
     [('add_code_challenge/add_code_verifier', SRC + 'oauth2/add_on/pkce.py'),
      ('random verifier', SRC + 'util.py:unreserved')],
     (), ['Authorization.construct', 'AccessToken.construct'])

prop('C12', 'Token lifetimes are recorded and honoured',
     'The expiry of an access token is the time of receipt plus the lifetime the provider gave. A token is handed '
     'out as valid only until then; with several, the one that expires last (of '
     'several without an end the most recently received). A session counts as active exactly '
     'as long as the ID token it received last has not expired.',
     ['inputs', 'schedules'],
     'every lifetime, clock reading and set of stored responses',
     'Tests look at one token at one moment.',
     [('expiry recorded', SRC + 'oauth2/access_token.py:AccessToken.update_service_context'),
      ('get_valid_access_token', RH + ':RPHandler.get_valid_access_token'),
      ('has_active_authentication', RH + ':RPHandler.has_active_authentication')],
     (), ['RPHandler.get_valid_access_token', 'RPHandler.has_active_authentication'])

prop('C13', 'An authorization request is bound to a fresh session and says what the client was configured to say',
     'Beginning an authentication creates a session with a new random state, and, for OpenID Connect, a new random '
     'nonce that leads back to it. The URL goes to the authorization endpoint of the chosen provider and carries '
     'that state and nonce, the client\'s identifier, one of its registered redirect URIs, its response type '
     'and its scope including openid. What the caller asks for overrides what is '
     'configured, and that the defaults. Neither the configuration nor the arguments of the caller are changed by it. The request is stored under the state, and the token request repeats the '
     'redirect URI and client of that stored request.',
     ['inputs', 'configurations', 'histories'],
     'every configuration, request arguments and stored session',
     'Tests begin with one or two configurations.',
     [('init_authorization/begin', RH + ':RPHandler.init_authorization'),
      ('request construction', SRC + 'oidc/authorization.py:Authorization'),
      ('token request', SRC + 'oauth2/access_token.py:AccessToken'),
      ('get_access_token', RH + ':RPHandler.get_access_token')],
     (), ['RPHandler.begin', 'RPHandler.get_access_token'])

prop('C14', 'User info is about the subject of the ID token and its signature is checked',
     'A user info response is accepted only if its subject is the subject of the ID token of the same session. '
     'The claims of an accepted response are those received. Claims collected from other sources are added only where their source names them and never replace the '
     'verified subject; a source that cannot be verified adds nothing, and one whose keys are not known leaves the '
     'rest intact. A signed response is accepted only if its signature verifies with an allowed algorithm.',
     ['inputs', 'histories'],
     'every subject, claim set, aggregated and distributed source',
     'Tests use one matching subject.',
     [('user info response', SRC + 'oidc/userinfo.py:UserInfo'),
      ('distributed claims', SRC + 'oidc/__init__.py:RP.fetch_distributed_claims')],
     (), ['Service.parse_response', 'RPHandler.finalize'])

prop('C15', 'Provider metadata is taken only from the issuer that was asked',
     'A discovery response is accepted only if the issuer it names is the one it was requested for (up to one '
     'trailing slash, and unless that check has been switched off). After acceptance every '
     'endpoint of every service and the issuer are those of that response, and its keys are loaded for that issuer; '
     'one that names another issuer changes nothing. '
     'The discovery URL is the issuer plus the well-known path.',
     ['inputs', 'configurations'],
     'every issuer, metadata document and previous configuration',
     'Tests load one document.',
     [('provider info', SRC + 'oauth2/provider_info_discovery.py:ProviderInfoDiscovery'),
      ('provider info', SRC + 'oidc/provider_info_discovery.py:ProviderInfoDiscovery')],
     (), ['ProviderInfoDiscovery.update_service_context'])

prop('C16', 'The client behaves within what it prefers and the provider supports',
     'For every preference of the client the value chosen is one the client prefers and the provider says it '
     'supports; where the provider says nothing, the default of the specification counts as supported, and if there '
     'is none either, what the client prefers. Without a common value it is an error or the value is empty or left '
     'out, never a value only one side knows, nor one from an earlier match. Matching does not change the preferences '
     'of the client.',
     ['inputs', 'configurations'],
     'every set of preferences and provider metadata',
     'Tests compare one profile with one provider.',
     [('match_preferences', SRC + 'oidc/provider_info_discovery.py:ProviderInfoDiscovery.match_preferences')],
     (), ['ServiceContext.behaviour'])

prop('C17', 'After registration the client uses what the provider registered',
     'The registration request carries the redirect URIs and the metadata the client was configured with. After an '
     'accepted registration response the client identifier, the secret with its expiry and the registration access '
     'token are those the response gives, the secret becomes a key of this client for this provider, and what the '
     'client does (token endpoint authentication, algorithms, response types) follows the values registered; what '
     'the provider did not say keeps the requested value. An error response leaves the client as it was. A client '
     'that has an identifier is not registered again.',
     ['inputs', 'configurations'],
     'every response and configuration',
     'Tests use one response.',
     [('registration', SRC + 'oidc/registration.py:Registration')],
     (), ['Registration.update_service_context'])

prop('C18', 'Callback URIs are specific to the issuer',
     'The callback URIs made for an issuer lie under the base URL of the relying party and contain a value derived '
     'from the issuer and the secret seed, so that two issuers never share one. The value leads back to exactly '
     'that issuer. Whatever response type is used, a client that was not configured with redirect URIs has one made '
     'this way to register.',
     ['inputs', 'configurations'],
     'every pair of issuers, seeds and base URLs',
     'Tests use two issuers.',
     [('create_callbacks', RH + ':RPHandler.create_callbacks'),
      ('hash2issuer', RH + ':RPHandler.init_client'),
      ('redirect URI generation', SC + ':ServiceContext.generate_request_uris')],
     (), ['RPHandler.create_callbacks'])

prop('C19', 'A cookie is read only if this party wrote it',
     'Reading through CookieDealer a cookie that was written with the same keys and name gives the value, type (one '
     'without a colon) and time written, whatever characters the value has. A cookie whose content, time, tag or nonce '
     'was changed, or that was written with other keys, is refused, whatever the change, and nothing is ever read but '
     'what was written.',
     ['inputs'],
     'every value, type, time, key and every other cookie content',
     'Tests change one or two characters.',
     [('make_cookie_content/parse_cookie', SRC + 'cookie.py:CookieDealer')],
     (), ['CookieDealer.get_cookie_value'],
     'HMAC and AES-GCM are assumed contracts (no forgery, only the key that encrypted decrypts). ')

prop('C20', 'Logout ends exactly the session it is about',
     'A logout request goes to the end-session endpoint of the provider of the session, with the ID token of that '
     'session as hint, one of the registered post-logout URIs and a fresh state that leads back to it. A back-channel '
     'logout request is acted upon only if its logout token is valid: signed by the provider, addressed to this '
     'client, with the logout event, no nonce, and about a known session or subject; it then names exactly that '
     'session. Clearing a session removes that session only.',
     ['inputs', 'histories'],
     'every session, token and several sessions at once',
     'Tests log out the only session.',
     [('logout/close/backchannel_logout', RH + ':RPHandler'),
      ('end session request', SRC + 'oidc/end_session.py:EndSession')],
     (), ['RPHandler.logout', 'RPHandler.clear_session'])

prop('C21', 'A DPoP proof is for the request it is sent with',
     'A DPoP proof names the method and URL of the request it is attached to, is fresh (each has a new identifier and is issued now), '
     'carries the public key only and is signed with the matching private key using a supported algorithm.',
     ['inputs', 'configurations'],
     'every method, URL, key and algorithm',
     'Tests make one proof.',
     [('dpop_header', SRC + 'oauth2/add_on/dpop.py')],
     (), ['Service.get_headers'],
     'The signing function of the JOSE library is an assumed contract. ')

prop('C22', 'State, nonce, verifier and identifier values are unpredictable',
     'Every state, nonce, PKCE verifier, assertion and proof identifier, cookie salt and logout state is drawn from '
     'the operating system\'s random source, character by character from the whole alphabet, and has the full '
     'length asked for (at least 16 characters by default).',
     ['inputs', 'schedules'],
     'every length and every call',
     'Tests can only see that two values differ.',
     [('rndstr/unreserved', SRC + 'util.py'), ('session state', SI + ':StateInterface.create_state')],
     (), ['rndstr', 'unreserved'])

prop('C23', 'WebFinger queries follow the normalisation rules and trust only an issuer link',
     'The identifier a user types is turned into the resource and host that OpenID Connect Discovery prescribes for '
     'its form. The issuer taken from the answer is the target of the first link with the issuer relation, and '
     'it must use https unless that was allowed to differ.',
     ['inputs'],
     'every identifier form and answer',
     'Tests try the examples of the specification.',
     [('query/get_request_parameters/update_service_context', SRC + 'oidc/webfinger.py:WebFinger')],
     (), ['WebFinger.query', 'WebFinger.update_service_context'])

prop('C24', 'What is put on the wire decodes to the request that was built',
     'The URL, query and body made for a request decode, under the declared content type, to exactly the parameters '
     'of the request, all of them once and nothing else; an endpoint\'s own query parameters are kept. '
     'A form or query request that lacks a required parameter is an error before anything is sent.',
     ['inputs', 'configurations'],
     'every request, method, body type and endpoint',
     'Tests use parameter values without reserved characters.',
     [('get_http_url/get_http_body', SRC + 'util.py'),
      ('construct/get_request_parameters', SV + ':Service')],
     (), ['Service.get_request_parameters'])

prop('C25', 'Requests reach the provider as built, over the configured transport',
     'Method, URL, body and headers handed to the HTTP library are those built for the request. The configured '
     'certificate verification, client certificate and timeout apply to every request, verification is on unless '
     'configured off, redirects are not followed, and nothing of one request ends up in another. The provider\'s '
     'keys are fetched with the same settings.',
     ['inputs', 'configurations', 'histories'],
     'every request and transport configuration; several requests in a row',
     'Tests mock the transport away.',
     [('HTTPLib', SRC + 'http.py:HTTPLib'), ('service_request/do_request', SRC + 'oauth2/__init__.py:Client'),
      ('transport settings', SRC + 'entity.py:Entity.__init__'), ('transport settings', RH + ':RPHandler.__init__')],
     (), ['requests.request'])

prop('C26', 'Providers served by one handler are kept apart',
     'Each issuer gets its own client with its own configuration, keys, credentials and services; setting up, or '
     'changing, one never changes another or the configuration it came from. A state leads to the issuer its session '
     'was started with, and to that issuer\'s client. The same issuer gets the same client again. Requests made for a state (tokens, '
     'refresh, user info) go to the provider of that session with the tokens of that session.',
     ['configurations', 'histories'],
     'every set of configured and dynamic issuers; any order of set-up',
     'Tests set up one client at a time.',
     [('init_client/client_setup/state2issuer/pick_config', RH + ':RPHandler'),
      ('shared state store', SI + ':StateInterface')],
     (), ['RPHandler.issuer2rp'])

prop('C27', 'Restoring saved state gives the state that was saved',
     'Dumping a service context or state store, writing the dump as JSON and loading it into a fresh one gives the '
     'same values for every attribute, so that sessions, provider information (configured or received), registration '
     'and behaviour continue.',
     ['inputs', 'histories'],
     'every attribute value and stored session',
     'Tests restore one context.',
     [('ServiceContext/StateInterface dump and load', SC + ':ServiceContext'), ('store', SI + ':StateInterface')],
     (), ['ServiceContext.load'])

prop('C28', 'A request object or pushed request carries the request it stands for',
     'When the authorization request is passed as a signed request object, by reference or pushed to the provider, '
     'the object contains all parameters of the request, names this client as issuer and the provider as audience, '
     'and is signed with the algorithm asked for or registered; the front-channel URL still carries what the '
     'protocol requires there and only the reference instead of the parameters it replaces. A failed push is an '
     'error, never a request without its parameters.',
     ['inputs', 'configurations'],
     'every request, algorithm and provider configuration',
     'Tests use one algorithm and one request.',
     [('construct_request_parameter/store_request_on_file', SRC + 'oidc/authorization.py:Authorization'),
      ('pushed authorization', SRC + 'oauth2/add_on/pushed_authorization.py')],
     (), ['Authorization.construct'],
     'The signing function of the JOSE library is an assumed contract. ')

prop('C29', 'Refreshing uses the latest refresh token and never loses one',
     'A refresh request carries the most recently received refresh token of the session (or the one given in the '
     'call). A refresh response without a new refresh token leaves the old one in use, one with a new token '
     'replaces it; the new access token becomes the one in use, and the ID token received last stays available.',
     ['inputs', 'histories'],
     'every sequence of token and refresh responses with any of the optional parameters',
     'Tests refresh once.',
     [('refresh', SRC + 'oauth2/refresh_access_token.py:RefreshAccessToken'),
      ('refresh_access_token', RH + ':RPHandler.refresh_access_token')],
     [('token_response/refresh_token_response', 'items of the session record', SI + ':StateInterface')],
     ['RPHandler.refresh_access_token'])

prop('C30', 'Concurrent requests on different sessions do not disturb each other',
     'Authentications that run at the same time in one process have the outcome they would have one after the other: '
     'an operation on one session (begin, finalize, refresh, user info, logout, removal, looking up) changes nothing '
     'that an operation on another session changes or reads, whatever happens while it waits for the provider. When '
     'the first authentications with a provider begin at the same time, each of them can be completed, with the same '
     'client.',
     ['schedules'],
     'every interleaving of two operations of different sessions, with the same or different providers',
     'Tests are single threaded; races show in rare schedules only.',
     [('operations', RH + ':RPHandler'), ('client set up', RH + ':RPHandler.client_setup'),
      ('in-memory store', SI + ':InMemoryStateDataBase'),
      ('request object files', SRC + 'oidc/authorization.py:Authorization.store_request_on_file')],
     [('issuer2rp, hash2issuer', 'clients by issuer, shared by all requests', RH),
      ('_db', 'session records and reverse index, shared by the sessions of a client', SI)],
     ['RPHandler.begin', 'RPHandler.finalize'],
     'Ownership argument: the write footprints of operations of different sessions are proved disjoint, inside the '
     'session store and the handler tables, and everything else is proved unchanged; reads are covered by running '
     'the other operation at every wait for the network (proved) and by switching threads at drawn lines (bounded). '
     'Single dictionary operations are taken as atomic (CPython). ')

prop('C31', 'Finalizing a login reports what this login yielded, and only a complete login',
     'For every response type, the result of finalizing a login names the session it belongs to and reports the '
     'access token, ID token and user info of this login: those from the token endpoint where the response type (or '
     'the caller) has them fetched there, those of the authorization response otherwise; the user info is what the '
     'user info endpoint says about that access token if the client has that service and there is a token, the '
     'claims of the ID token otherwise. The provider is asked for what the login needs, once. When the provider '
     'reports an error or something the response type promises is missing, at whatever step, the outcome is an error '
     'or exception, never a login with parts missing or of another session. A response is understood the same as '
     'parameters, as a query or fragment, as the URL it came in, or as JSON.',
     ['inputs', 'configurations', 'faults'],
     'every response type with and without a user info service; every value; a fault at every step',
     'Tests finalize the code flow with one provider; the flows differ in where tokens come from and which steps can '
     'fail.',
     [('finalize and the steps it takes', RH + ':RPHandler.finalize'),
      ('which tokens are used', RH + ':RPHandler.get_access_and_id_token'),
      ('parsing a response', SV + ':Service.parse_response')],
     (), ['RPHandler.finalize', 'RPHandler.finalize_auth'],
     'cryptojwt signature verification and left_hash are assumed contracts. ')
