"""Certificates for the TLS configurations: made once per run with the cryptography package."""
from __future__ import annotations
import datetime, ipaddress, os


def make(d):
    """ca.pem, other-ca.pem; NAME.pem (certificate and key) for the names below; NAME.crt, NAME.key; enc.key with a passphrase."""
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.x509.oid import NameOID
    os.makedirs(d, exist_ok=True)
    now = datetime.datetime(2020, 1, 1)
    far = datetime.datetime(2099, 1, 1)

    def name(n):
        return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, n)])

    def write(n, b):
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)

    def pem_key(k, pw=None):
        enc = serialization.BestAvailableEncryption(pw) if pw else serialization.NoEncryption()
        return k.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, enc)

    def ca(n):
        k = ec.generate_private_key(ec.SECP256R1())
        c = (x509.CertificateBuilder().subject_name(name(n)).issuer_name(name(n)).public_key(k.public_key()).serial_number(x509.random_serial_number())
             .not_valid_before(now).not_valid_after(far).add_extension(x509.BasicConstraints(ca=True, path_length=None), critical=True)
             .add_extension(x509.SubjectKeyIdentifier.from_public_key(k.public_key()), critical=False)
             .add_extension(x509.KeyUsage(digital_signature=True, key_cert_sign=True, crl_sign=True, content_commitment=False, key_encipherment=False,
                                          data_encipherment=False, key_agreement=False, encipher_only=False, decipher_only=False), critical=True)
             .sign(k, hashes.SHA256()))
        write(n + ".pem", c.public_bytes(serialization.Encoding.PEM))
        return n, k, c

    def leaf(n, issuer, dns, until=far, ips=()):
        k = ec.generate_private_key(ec.SECP256R1())
        c = (x509.CertificateBuilder().subject_name(name(n)).issuer_name(issuer[2].subject).public_key(k.public_key()).serial_number(x509.random_serial_number())
             .not_valid_before(now).not_valid_after(until).add_extension(x509.BasicConstraints(ca=False, path_length=None), critical=True)
             .add_extension(x509.SubjectAlternativeName([x509.DNSName(x) for x in dns] + [x509.IPAddress(ipaddress.ip_address(x)) for x in ips]), critical=False)
             .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer[1].public_key()), critical=False)
             .sign(issuer[1], hashes.SHA256()))
        crt = c.public_bytes(serialization.Encoding.PEM)
        write(n + ".crt", crt)
        write(n + ".key", pem_key(k))
        write(n + "-enc.key", pem_key(k, b"secret"))
        write(n + ".pem", crt + pem_key(k))
        write(n + "-enc.pem", crt + pem_key(k, b"secret"))

    a, b = ca("ca"), ca("other-ca")
    here = ["127.0.0.1", "::1", "::"]
    leaf("server", a, ["localhost"], ips=here)
    leaf("wrongname", a, ["elsewhere.example"])
    leaf("expired", a, ["localhost"], datetime.datetime(2021, 1, 1), here)
    leaf("strange", b, ["localhost"], ips=here)
    leaf("client", a, ["client"])
    leaf("strange-client", b, ["client"])
    leaf("old-client", a, ["client"], datetime.datetime(2021, 1, 1))
    return d
