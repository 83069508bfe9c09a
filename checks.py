"""Where each property's check lives. Options: pkg (harness package, or package
of /repo for overlay tests), overlay (directory of /verif/overlay laid over
pkg), race (build with the race detector), bins (programs it runs), oom (limit
its memory, and count running out of it as a violation), unpriv (run as nobody),
tags (build tags to build and run the check with again), buildtags (the only
tags to build with), clib (a C source of the harness, built as the static library
that the code under test links; its directory is searched for headers too)."""

CORE = {"pkg": "core"}
CORERACE = {"pkg": "core", "race": True}
COMP = {"pkg": "comp"}
RPC = {"pkg": "rpcp", "race": True}
TEVM = {"pkg": "tevmp"}
TEVMRACE = {"pkg": "tevmp", "race": True}
CC = {"pkg": "ccp"}
ETH = {"pkg": "cmdp", "bins": {"eth": "./cmd/eth"}}

CHECKS = {
    "C01": CORE,
    "C02": CORE,
    "C03": CORE,
    "C04": CORE,
    "C05": CORE,
    "C06": CORE,
    "C07": CORE,
    "C08": CORE,
    "C09": CORE,
    "C10": CORE,
    "C11": {"pkg": "core", "oom": True},
    "C12": RPC,
    "C13": RPC,
    "C14": RPC,
    "C15": CORE,
    "C16": CORERACE,
    "C17": CORERACE,
    "C18": CORE,
    "C19": CORE,
    "C20": COMP,
    "C21": COMP,
    "C22": {"pkg": "comp", "bins": {"solc": "harness:./fakesolc"}, "unpriv": True},
    "C23": COMP,
    "C24": TEVM,
    "C25": TEVM,
    "C26": TEVM,
    "C27": TEVM,
    "C28": TEVM,
    "C29": TEVM,
    "C30": TEVM,
    "C31": TEVM,
    "C32": TEVM,
    "C33": TEVM,
    "C34": TEVMRACE,
    "C35": CC,
    "C36": CC,
    "C37": CC,
    "C38": {"pkg": "kecp", "tags": ["appengine"], "bins": {"only": "harness:./kecp/only"}},
    "C39": {"pkg": "ec", "overlay": "ec"},
    "C40": {"pkg": "ec", "overlay": "ec"},
    "C41": {"pkg": "bindp", "bins": {"bindgen": "./bindgen", "solc": "harness:./fakesolc"}},
    "C42": ETH,
    "C43": ETH,
    "C44": ETH,
    "C45": ETH,
    "C46": {"pkg": "yubip", "bins": {"eth": "./cmd/eth"}, "buildtags": "yubihsm",
            "clib": ("yubip/device/device.c", "yubihsm")},
    "C47": {"pkg": "rpcp"},
    "C48": {"pkg": "ercp"},
    "C49": {"pkg": "cmdp", "bins": {"tevmd": "./tevm/tevmd"}},
    "C50": TEVMRACE,
    "C51": CC,
}
