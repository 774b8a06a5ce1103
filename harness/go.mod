module phv

go 1.24

require github.com/tg123/phabrik v0.0.0

require github.com/sigurn/crc8 v0.0.0-20220107193325-2243fe600f9f // indirect

replace github.com/tg123/phabrik => /repo
