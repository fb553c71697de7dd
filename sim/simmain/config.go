package main

import (
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"verifsim/kfake"
	"verifsim/scen"
)

// Configurations of transactions: invalid ones are refused, others are not.

func validEos(c scen.EosCfg) bool {
	if c == (scen.EosCfg{}) {
		return true // (the default)
	}
	return c.Pool > 0 && c.Pending > 0 && c.Target > 0 && c.Max >= c.Target && c.DelayUs >= 1000
}

func runConfig(c *scen.Config) {
	cl := kfake.New(brokerCfg(c.Broker))
	for i, e := range c.Cfgs {
		cfg := streams.EosConfig{PoolSize: e.Pool, PendingTxnCount: e.Pending, TargetBatchSize: e.Target, MaxBatchSize: e.Max, BatchDelay: time.Duration(e.DelayUs) * time.Microsecond}
		if cfg.IsZero() != (e == scen.EosCfg{}) {
			viol("config-zero", []string{"C22"}, "IsZero of %+v is %v", e, cfg.IsZero())
		}
		why, at := tryConfig(cl.NewClient(fmt.Sprintf("c%d", i)), i, cfg)
		if valid := validEos(e); valid != (why == "") {
			viol("config", []string{"C22"}, "configuration %+v: expected to be refused: %v; outcome: %q %s", e, !valid, why, at)
		}
		if why == "" {
			stat("accepted", 1)
		} else {
			stat("refused", 1)
		}
	}
}

func tryConfig(cl *kfake.Client, i int, cfg streams.EosConfig) (why, at string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprintf("panic: %v", r)
		}
	}()
	_, err := streams.NewEventSource(streams.EventSourceConfig{GroupId: fmt.Sprintf("g%d", i), Topic: "t", NumPartitions: 1, SourceCluster: cl, EosConfig: cfg}, func(streams.TopicPartition) *Store { return &Store{} },
		func(*streams.EventContext[*Store], streams.IncomingRecord) streams.ExecutionState {
			return streams.Complete
		})
	if err != nil {
		return "error: " + err.Error(), ""
	}
	return "", ""
}
