"""Synthetic reference database: box files as the code reads them."""
import os

import numpy as np
from scipy.io import savemat

PREFIX = {"ctd": "/historical_ctd/ctd_", "bottle": "/historical_bot/bot_", "argo": "/historical_argo/argo_"}
TYPES = ("ctd", "bottle", "argo")


def directories(root):
    for k in PREFIX.values():
        os.makedirs(root + os.path.dirname(k), exist_ok=True)


def config(root):
    return {"HISTORICAL_DIRECTORY": root, "HISTORICAL_CTD_PREFIX": PREFIX["ctd"],
            "HISTORICAL_BOTTLE_PREFIX": PREFIX["bottle"], "HISTORICAL_ARGO_PREFIX": PREFIX["argo"]}


def write(root, kind, box, lat, lon, dates, sal, ptmp, pres, source=None):
    """Fields of profiles are levels x casts."""
    n = len(lat)
    data = {"lat": np.reshape(lat, (1, n)), "long": np.reshape(lon, (1, n)), "dates": np.reshape(dates, (1, n)).astype(float),
            "sal": sal, "ptmp": ptmp, "pres": pres, "temp": ptmp}
    if source is not None:
        cell = np.empty((1, n), dtype=object)
        for i, v in enumerate(source):
            cell[0, i] = v
        data["source"] = cell
    savemat(root + PREFIX[kind] + str(int(box)) + ".mat", data)
