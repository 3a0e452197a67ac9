module verif.local/sim

go 1.27

require github.com/qiniu/text v0.0.0

replace github.com/qiniu/text => /repo
