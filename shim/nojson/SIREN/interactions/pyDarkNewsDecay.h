// Stand-in: the Python-implemented models are not part of the simulated system.
#pragma once
#include "SIREN/interactions/DarkNewsDecay.h"
