"""Library configurations (environment of the driver process)."""
DEFAULT = {}
SMALL = {"ARMAS_CACHE": "4096,1024", "ARMAS_CONFIG": "64,64,160,4,8,4"}     # MB=NB=8 KB=24
SQUARE = {"ARMAS_CACHE": "4k,1k", "ARMAS_CONFIG": "32,32,32,6,16,2"}        # MB=NB=KB=16
SKEW = {"ARMAS_CACHE": "8192,4096", "ARMAS_CONFIG": "16,32,16,5,3,3"}       # unequal blocks
ALL = [DEFAULT, SMALL, SQUARE, SKEW]
TALL = {"ARMAS_CACHE": "8192,2048", "ARMAS_CONFIG": "64,16,16,7,5,8"}       # MB=32 NB=8 KB=8
FIXED = {"ARMAS_CACHE": "32K,8K", "ARMAS_CONFIG": "12,20,24,3,4,5,y"}       # used as given
ALL = [DEFAULT, SMALL, SQUARE, SKEW, TALL, FIXED]
