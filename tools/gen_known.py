#!/usr/bin/env python3
"""Writes known_findings.txt from the fix: commits in /repo (by subject)."""
import subprocess, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = {
 'setting the policies of a path': ('C03', 'creating an entry below an existing prefix or for another method overwrote the actions of the enclosing prefix: GET /a/* policies leaked to or replaced those of /a'),
 'fall back to less specific': ('C02', 'a longer prefix with policies only for another method left the request unprotected although an enclosing prefix covered it'),
 'find the policy of the path an OIDC': ('C02', '/oidc/callback and /oidc/logout at the root, or below a path with a trailing slash, were decided by no or another policy'),
 'guard the policy store': ('C17', 'concurrent map read and write in the policy store while a config changed under traffic'),
 'replace and remove': ('C17', 'updating a policy removed it first: a request in between went through unprotected; entries shared with another policy were lost'),
 'decide a request by a single': ('C17', 'the separate look-ups for method and ALL could see two store versions and pick a policy never in force, or none'),
 'compare numeric claims': ('C06', 'a numeric claim 1.5 matched a rule value 2 (rounded) and did not match 1.5'),
 'name the required scopes': ('C07', 'the 401 for a missing or malformed Authorization header did not name the scopes of the policy'),
 'decode the whole exponent': ('C08', 'a JWK exponent longer than four bytes was cut: another key than the published one was used'),
 'skip malformed entries': ('C08', 'one malformed entry of a JWKS made the whole set be refused'),
 'return from login to the URL': ('C09', 'after login at a path containing /oidc/callback twice or with a policy redirectUri the browser was sent elsewhere'),
 'retain the authorization endpoint': ('C09', "the authorization endpoint's own query parameters were dropped or broke the login URL"),
 'report an expired access token': ('C11', 'a session whose JWT access token expired was deleted instead of being renewed with its refresh token'),
 'redirect from logout within': ('C11', 'logout at //evil.example/oidc/logout redirected to another host, and at /oidc/logout to an empty Location'),
 'keep the refresh token': ('C11', 'a refresh answer without a refresh token discarded the old one: the session could be renewed only once'),
 'a refresh in flight': ('C17', 'logout during a token refresh: the refresh stored the session again, and it was usable after logout'),
 'a session is only for': ('C11', "the session id of one client was accepted in another client's cookie, and that client's logout ended it"),
 'draw session ids': ('C13', 'session ids and states came from math/rand seeded with the start time: predictable, and racy'),
 'read the cookie encryptor': ('C17', 'data race on the cookie encryptor (unlocked first look)'),
 'guard the public keys': ('C17', 'data race between key refresh and validation'),
 'guard the discovered': ('C17', 'data race on the discovery document: a request could see initialized without the endpoints'),
 'bind no key set': ('C15', 'an OidcConfig created while its provider was down kept a key set bound to an empty URL: tokens were refused until restart'),
 'a rule without a source': ('C12', 'an opaque access token was accepted under a stated rule that names no source'),
 'do not sign or encrypt': ('C16', 'a cookie-key secret lacking HASH_KEY or BLOCK_KEY led to cookies signed with an empty key, or readable ones'),
 'copy the lists of': ('C19', 'the deep copy of an OidcConfig shared its scopes, and that of a policy its rules and their values, with the original'),
 'bound the userinfo': ('C18', 'a userinfo endpoint that does not answer hung the request forever, and its connections were never released'),
 'let the Policy definition accept PATCH': ('C23', 'the Policy CustomResourceDefinition refused method PATCH, which README and code support'),
}
out = ['# One line per genuine defect found in /repo. "fixed:" entries suppress nothing.']
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    hit = [v for k, v in WHAT.items() if s[5:].startswith(k)]
    if len(hit) != 1: sys.exit('no description for ' + s)
    out.append('fixed: property=%s %s %s' % (hit[0][0], h, hit[0][1]))
open(root + '/known_findings.txt', 'w').write('\n'.join(out) + '\n')
