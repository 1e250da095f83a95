"""C10: AES is FIPS 197 in every implementation and block count."""
from cipher_common import *
gm.main("C10", body_for(["aes128", "aes192", "aes256"], skip=["port"]))  # port and base build the same AES
