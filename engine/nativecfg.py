"""per property options of the native drivers"""
HW = ["bpak_hash_init", "bpak_hash_update", "bpak_hash_final", "bpak_hash_free"]
CFG = {"C05": {"wraps": HW}, "C06": {"wraps": HW}, "C07": {"wraps": HW + ["bpak_crypto_verify"]}, "C08": {"wraps": HW}, "C09": {"wraps": HW}, "C19": {"wraps": HW + ["bpak_crypto_sign", "bpak_crypto_load_private_key"]}, "C16": {"wraps": ["stat"]}, "C21": {"wraps": ["bpak_crypto_parse_public_key"]}, "C22": {"wraps": ["mbedtls_" + x for x in ("sha256_starts_ret", "sha256_update_ret", "sha256_finish_ret", "sha512_starts_ret", "sha512_update_ret", "sha512_finish_ret", "pk_parse_public_key", "pk_parse_public_keyfile", "pk_parse_keyfile", "pk_parse_key", "pk_write_pubkey_der", "pk_write_key_der", "pk_verify", "pk_sign", "ctr_drbg_seed")]}}
