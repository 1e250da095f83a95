"""C09: SM4 is the standard cipher in every implementation and block count."""
from cipher_common import *
gm.main("C09", body_for(["sm4"]))
