module verifsim

go 1.27

replace github.com/tokenized/txbuilder => /repo

require (
	github.com/pkg/errors v0.9.1
	github.com/tokenized/arc v0.0.0-20240321210357-e5700dc9cc36
	github.com/tokenized/bitcoin_interpreter v0.1.1
	github.com/tokenized/channels v0.1.2-0.20240224000422-689cbd7f0d49
	github.com/tokenized/config v0.2.2
	github.com/tokenized/logger v0.1.3
	github.com/tokenized/pkg v0.7.1-0.20240411200849-7877637f2592
	github.com/tokenized/txbuilder v1.1.1-0.20230816003850-4414c86d5db4
)

require (
	github.com/FactomProject/basen v0.0.0-20150613233007-fe3947df716e // indirect
	github.com/FactomProject/btcutilecc v0.0.0-20130527213604-d3a63a5752ec // indirect
	github.com/aws/aws-sdk-go v1.35.3 // indirect
	github.com/btcsuite/btcd v0.20.1-beta // indirect
	github.com/btcsuite/btcutil v1.0.2 // indirect
	github.com/google/uuid v1.3.0 // indirect
	github.com/gorilla/websocket v1.4.2 // indirect
	github.com/jmespath/go-jmespath v0.4.0 // indirect
	github.com/kelseyhightower/envconfig v1.4.0 // indirect
	github.com/tokenized/envelope v1.1.0 // indirect
	github.com/tokenized/threads v0.1.2 // indirect
	github.com/tyler-smith/go-bip32 v0.0.0-20170922074101-2c9cfd177564 // indirect
	golang.org/x/crypto v0.8.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
