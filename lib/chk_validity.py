"""C11: the rules of validity; see chk_instance.py."""
from chk_instance import check
