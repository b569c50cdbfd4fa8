SPECIFICATION PlaySpec
CONSTANTS StreamByte <- PStreamByte
 Image <- PImage
 Origin <- POrigin
 Noise <- PNoise
INVARIANT Conforms
VIEW Where
ALIAS Told
CHECK_DEADLOCK FALSE
