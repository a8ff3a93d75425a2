"""A stand-in for the release service: an HTTPS proxy on the loopback that answers itself."""
import os, socket, ssl, subprocess, threading, time, json
from vh import scratch, CheckError
_lk = threading.Lock()

def certs(name='good'):
    d = os.path.join(scratch(), 'cert-' + name)
    with _lk:
        if not os.path.isdir(d):
            os.makedirs(d)
            r = subprocess.run(['openssl', 'req', '-x509', '-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1', '-nodes', '-days', '3', '-keyout', d + '/key.pem', '-out', d + '/cert.pem',
                                '-subj', '/CN=api.github.com', '-addext', 'subjectAltName=DNS:api.github.com,DNS:*.github.com,DNS:github.com'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise CheckError('no certificate: ' + r.stdout.decode())
    return d + '/cert.pem', d + '/key.pem'

class Service:
    def __init__(self):
        self.l = socket.socket(); self.l.bind(('127.0.0.1', 0)); self.l.listen(16); self.port = self.l.getsockname()[1]
        self.answer = dict(k='fail', how='500'); self.asked = []; self.done = 0; self.stop = False
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); self.ctx.load_cert_chain(*certs())
        self.bad = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); self.bad.load_cert_chain(*certs('bad'))
        threading.Thread(target=self.loop, daemon=True).start()
    def env(self, direct=False):
        e = {'SSL_CERT_FILE': certs()[0], 'SSL_CERT_DIR': '/nonexistent', 'BAB_NO_UPDATE_CHECK': '', 'NO_PROXY': '', 'no_proxy': ''}
        p = 'http://127.0.0.1:%d' % (1 if direct else self.port)
        e.update({k: p for k in ('HTTPS_PROXY', 'https_proxy', 'HTTP_PROXY', 'http_proxy')})
        return e
    def loop(self):
        while not self.stop:
            try: s, _ = self.l.accept()
            except OSError: return
            threading.Thread(target=self.one, args=(s,), daemon=True).start()
    def close(self):
        self.stop = True
        try: self.l.close()
        except OSError: pass
    def head(self, s):
        b = b''
        while b'\r\n\r\n' not in b:
            x = s.recv(4096)
            if not x: return None
            b += x
        ls = b.decode('latin1').split('\r\n')
        return ls[0], {l.split(':', 1)[0].strip().lower(): l.split(':', 1)[1].strip() for l in ls[1:] if ':' in l}
    def one(self, s):
        try:
            s.settimeout(20); a = self.answer; how = a.get('how', '')
            h = self.head(s)
            if not h: return
            if how == 'refuse': s.close(); self.asked.append(dict(first=h[0], inm='')); return
            s.sendall(b'HTTP/1.1 200 OK\r\n\r\n')
            if how == 'reset': self.asked.append(dict(first=h[0], inm='')); s.close(); return
            t = (self.bad if how == 'badcert' else self.ctx)
            try: t = t.wrap_socket(s, server_side=True)
            except (ssl.SSLError, OSError):
                if how == 'badcert': self.asked.append(dict(first=h[0], inm=''))
                return
            while True:
                h = self.head(t)
                if not h: return
                inm = h[1].get('if-none-match', ''); self.asked.append(dict(first=h[0], inm=inm))
                if how == 'hang': time.sleep(15); return
                st, hd, body = self.reply(a, inm)
                t.sendall(('HTTP/1.1 %s\r\nContent-Type: application/json\r\n%sContent-Length: %d\r\n\r\n' % (st, hd, len(body) + (10 if how == 'cut' else 0))).encode() + body)
                if how == 'cut': t.close(); return
        except OSError: pass
        finally:
            self.done += 1
            try: s.close()
            except OSError: pass
    def reply(self, a, inm):
        how = a.get('how', '')
        etag = 'ETag: %s\r\n' % a['etag'] if a.get('etag') else ''
        if a['k'] == 'same304': return '304 Not Modified', etag, b''
        if a['k'] == 'ok':
            if a.get('etag') and inm == a['etag']: return '304 Not Modified', etag, b''
            return '200 OK', etag, json.dumps(dict(url='https://x', tag_name=a['tag'], name='n', body='é' * 50, assets=[dict(id=1)])).encode()
        body = {'notjson': b'<html>', 'empty': b'', 'notag': b'{"name": "v9.9.9"}', 'emptytag': b'{"tag_name": ""}', 'list': b'["v9.9.9"]', 'number': b'{"tag_name": 9}', 'null': b'null',
                'huge': b'{"tag_name": "v9.9.9", "body": "' + b'x' * (3 << 20) + b'"}', 'cut': b'{"tag_name": "v9.9.9", "body": "'}.get(how)
        if body is not None: return '200 OK', 'ETag: "bad"\r\n', body
        good = b'{"tag_name": "v9.9.9"}'
        if how in ('301', '302', '307'): return how + ' Moved', 'Location: https://api.github.com/elsewhere\r\n', good
        return how + ' Status', 'ETag: "bad"\r\n', good
