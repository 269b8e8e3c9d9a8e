package checks

import "verif/analyzer/peval"

// wiredSource is the workflow of the applications.
func wiredSource() map[string]string {
	return map[string]string{
		"/src/workflow/user/user.go": `package user

import (
	"context"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
)

type User struct {
	ID   int64
	Name string
}

type UserService interface {
	Get(ctx context.Context, id int64) (User, error)
	Put(ctx context.Context, u User) error
}

type impl struct{}

func (impl) Get(ctx context.Context, id int64) (User, error) { return User{}, nil }
func (impl) Put(ctx context.Context, u User) error           { return nil }

func NewUserService(ctx context.Context, users backend.NoSQLDatabase, recent backend.Cache, region string) (UserService, error) {
	return impl{}, nil
}
`,
		"/src/workflow/mail/mail.go": `package mail

import "context"

type Mail interface {
	Send(ctx context.Context, to string, text string) error
}

type impl struct{ from, via string }

func (impl) Send(ctx context.Context, to string, text string) error { return nil }

func NewMail(ctx context.Context, from string, via string) (Mail, error) { return impl{from, via}, nil }
`,
		"/src/workflow/order/order.go": `package order

import (
	"context"

	"m.org/shop/workflow/mail"
	"m.org/shop/workflow/user"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
)

type OrderService interface {
	Order(ctx context.Context, by int64, items []string) (string, error)
}

type impl struct{}

func (impl) Order(ctx context.Context, by int64, items []string) (string, error) { return "", nil }

func NewOrderService(ctx context.Context, users user.UserService, first mail.Mail, second mail.Mail, orders backend.RelationalDB, pending backend.Queue) (OrderService, error) {
	return impl{}, nil
}
`,
		"/src/workflow/front/front.go": `package front

import (
	"context"

	"m.org/shop/workflow/mail"
	"m.org/shop/workflow/user"
)

type Front interface {
	Page(ctx context.Context, id int64) (string, error)
}

type impl struct{}

func (impl) Page(ctx context.Context, id int64) (string, error) { return "", nil }

func NewFront(ctx context.Context, users user.UserService, mails mail.Mail) (Front, error) { return impl{}, nil }

type Alone interface {
	Page(ctx context.Context) (string, error)
}

type alone struct{}

func (alone) Page(ctx context.Context) (string, error) { return "", nil }

func NewAlone(ctx context.Context) (Alone, error) { return alone{}, nil }
`,
		"/src/workflow/load/load.go": `package load

import (
	"context"

	"m.org/shop/workflow/front"
	"m.org/shop/workflow/mail"
)

type Load interface {
	Run(ctx context.Context) error
}

type impl struct{}

func (impl) Run(ctx context.Context) error { return nil }

func NewLoad(ctx context.Context, alone front.Alone, mails mail.Mail, rate string) (Load, error) { return impl{}, nil }
`,
	}
}

func wireCases() []*wireCase {
	return []*wireCase{
		{
			what: "one process of services with simple backends",
			do: func(a *app) {
				a.do("simple.NoSQLDB", "user_db")
				a.do("simple.Cache", "user_cache")
				a.do("simple.RelationalDB", "order_db")
				a.do("simple.Queue", "order_queue")
				a.of("workflow.Service", "user.UserService", "user_service", []string{"user_db", "user_cache", "north"})
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.of("workflow.Service", "mail.Mail", "mail_b", []string{"smtp", "b@x"})
				a.of("workflow.Service", "order.OrderService", "order_service", []string{"user_service", "mail_b", "mail_a", "order_db", "order_queue"})
				a.do("goproc.CreateProcess", "shop", []string{"order_service"})
			},
			build: []string{"shop"},
			want: map[string][]string{
				"linux/shop": {
					`order.NewOrderService(user.NewUserService(plugins/simplenosqldb.NewSimpleNoSQLDB(), plugins/simplecache.NewSimpleCache(), "north"), mail.NewMail("smtp", "b@x"), mail.NewMail("a@x", "smtp"), plugins/sqlitereldb.NewSqliteRelDB(), plugins/simplequeue.NewSimpleQueue())`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "services called over gRPC, thrift and HTTP through modifiers",
			do: func(a *app) {
				a.do("simple.NoSQLDB", "user_db")
				a.do("simple.Cache", "user_cache")
				a.of("workflow.Service", "user.UserService", "user_service", []string{"user_db", "user_cache", "north"})
				a.do("retries.AddRetries", "user_service", 7)
				a.do("timeouts.Add", "user_service", "5s")
				a.do("clientpool.Create", "user_service", 4)
				a.do("grpc.Deploy", "user_service")
				a.do("goproc.Deploy", "user_service")
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("latency.AddFixed", "mail_a", "10ms")
				a.do("circuitbreaker.AddCircuitBreaker", "mail_a", 100, 0.5, "1s")
				a.do("thrift.Deploy", "mail_a")
				a.do("goproc.CreateProcess", "mails", []string{"mail_a"})
				a.of("workflow.Service", "front.Front", "front_service", []string{"user_service", "mail_a"})
				a.do("healthchecker.AddHealthCheckAPI", "front_service")
				a.do("http.Deploy", "front_service")
				a.do("goproc.Deploy", "front_service")
			},
			build: []string{"front_proc", "user_proc", "mails"},
			want: map[string][]string{
				"linux/front_proc": {
					`http(healthcheck(front.NewFront(retries(timeouts(pool{grpc(^@user_service.grpc.dial_addr)}, "5s")), cb(thrift(@mail_a.thrift.dial_addr)))), @front_service.http.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
				"linux/mails": {
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
					`thrift(latencyinjector(mail.NewMail("a@x", "smtp"), "10ms"), @mail_a.thrift.bind_addr)`,
				},
				"linux/user_proc": {
					`grpc(user.NewUserService(plugins/simplenosqldb.NewSimpleNoSQLDB(), plugins/simplecache.NewSimpleCache(), "north"), @user_service.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "a traced application with its backends in containers",
			do: func(a *app) {
				a.do("mongodb.Container", "user_db")
				a.do("memcached.Container", "user_cache")
				a.do("mysql.Container", "order_db")
				a.do("rabbitmq.Container", "order_queue", "orders")
				a.do("zipkin.Collector", "trace")
				a.of("workflow.Service", "user.UserService", "user_service", []string{"user_db", "user_cache", "north"})
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.of("workflow.Service", "order.OrderService", "order_service", []string{"user_service", "mail_a", "mail_a", "order_db", "order_queue"})
				for _, s := range []string{"user", "order"} {
					a.do("opentelemetry.Instrument", s+"_service", "trace")
					a.do("grpc.Deploy", s+"_service")
					a.do("goproc.Deploy", s+"_service")
					a.do("linuxcontainer.Deploy", s+"_service")
				}
				a.do("opentelemetry.Logger", "order_proc")
				a.do("goproc.SetMetricPrintFrequency", "user_proc", "3s")
			},
			build: []string{"order_ctr", "user_ctr"},
			want: map[string][]string{
				"docker (containers)": {
					`order_ctr from order_ctr`,
					`order_db_ctr of an image`,
					`order_queue_ctr of an image`,
					`trace_ctr of an image`,
					`user_cache_ctr of an image`,
					`user_ctr from user_ctr`,
					`user_db_ctr of an image`,
				},
				"docker/order_ctr/order_proc": {
					`grpc(ot(order.NewOrderService(ot(grpc(@user_service.grpc.dial_addr), shared plugins/zipkin.NewZipkinTracer(@trace.dial_addr)), shared mail.NewMail("a@x", "smtp"), shared mail.NewMail("a@x", "smtp"), plugins/mysql.NewMySqlDB(@order_db.dial_addr, "order_db", "root", "pass"), plugins/rabbitmq.NewRabbitMQ(@order_queue.dial_addr, "orders")), shared plugins/zipkin.NewZipkinTracer(@trace.dial_addr)), @order_service.grpc.bind_addr)`,
					`plugins/opentelemetry.NewOTTraceLogger()`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
				},
				"docker/user_ctr/user_proc": {
					`grpc(ot(user.NewUserService(plugins/mongodb.NewMongoDB(@user_db.dial_addr), plugins/memcached.NewMemcachedClient(@user_cache.dial_addr), "north"), plugins/zipkin.NewZipkinTracer(@trace.dial_addr)), @user_service.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("3s")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "two processes in a container, and a second deployment file",
			do: func(a *app) {
				a.do("redis.Container", "cache")
				a.do("simple.NoSQLDB", "user_db")
				a.of("workflow.Service", "user.UserService", "user_service", []string{"user_db", "cache", "north"})
				a.do("grpc.Deploy", "user_service")
				a.of("workflow.Service", "mail.Mail", "mail_service", []string{"a@x", "smtp"})
				a.do("thrift.Deploy", "mail_service")
				a.of("workflow.Service", "front.Front", "front_service", []string{"user_service", "mail_service"})
				a.do("http.Deploy", "front_service")
				a.do("goproc.CreateProcess", "back", []string{"user_service"})
				a.do("goproc.AddToProcess", "back", "mail_service")
				a.do("goproc.Deploy", "front_service")
				a.do("linuxcontainer.CreateContainer", "box", []string{"back"})
				a.do("linuxcontainer.AddToContainer", "box", "front_proc")
				a.do("dockercompose.NewDeployment", "site", []string{"box"})
				a.do("dockercompose.AddContainerToDeployment", "site", "cache")
			},
			build: []string{"site"},
			want: map[string][]string{
				"site (containers)": {
					`box from box`,
					`cache_ctr of an image`,
				},
				"site/box/back": {
					`grpc(user.NewUserService(plugins/simplenosqldb.NewSimpleNoSQLDB(), plugins/redis.NewRedisCacheClient(@cache.dial_addr), "north"), @user_service.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
					`thrift(mail.NewMail("a@x", "smtp"), @mail_service.thrift.bind_addr)`,
				},
				"site/box/front_proc": {
					`http(front.NewFront(grpc(@user_service.grpc.dial_addr), thrift(@mail_service.thrift.dial_addr)), @front_service.http.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "modified services and their callers in one process",
			do: func(a *app) {
				a.do("zipkin.Collector", "trace")
				a.do("mysql.Container", "order_db")
				a.do("simple.Queue", "order_queue")
				a.do("simple.NoSQLDB", "user_db")
				a.do("simple.Cache", "user_cache")
				a.of("workflow.Service", "user.UserService", "user_service", []string{"user_db", "user_cache", "order_db"})
				a.do("retries.AddRetries", "user_service", 7)
				a.do("latency.AddFixed", "user_service", "10ms")
				a.do("timeouts.Add", "user_service", "5s")
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("latency.AddFixed", "mail_a", "20ms")
				a.do("opentelemetry.Instrument", "mail_a", "trace")
				a.of("workflow.Service", "mail.Mail", "mail_b", []string{"mail", ""})
				a.do("latency.AddFixed", "mail_b", "30ms")
				a.do("grpc.Deploy", "mail_b")
				a.of("workflow.Service", "order.OrderService", "order_service", []string{"user_service", "mail_a", "mail_b", "order_db", "order_queue"})
				a.of("workflow.Service", "front.Front", "front_service", []string{"user_service", "mail_a"})
				a.do("goproc.CreateProcess", "shop", []string{"order_service", "front_service", "mail_b"})
			},
			build: []string{"shop"},
			want: map[string][]string{
				"docker (containers)": {
					`order_db_ctr of an image`,
					`trace_ctr of an image`,
				},
				"linux/shop": {
					`front.NewFront(shared retries(timeouts(latencyinjector(user.NewUserService(plugins/simplenosqldb.NewSimpleNoSQLDB(), plugins/simplecache.NewSimpleCache(), shared plugins/mysql.NewMySqlDB(@order_db.dial_addr, "order_db", "root", "pass")), "10ms"), "5s")), shared ot(ot(latencyinjector(mail.NewMail("a@x", "smtp"), "20ms"), shared plugins/zipkin.NewZipkinTracer(@trace.dial_addr)), shared plugins/zipkin.NewZipkinTracer(@trace.dial_addr)))`,
					`grpc(latencyinjector(mail.NewMail("mail", ""), "30ms"), @mail_b.grpc.bind_addr)`,
					`order.NewOrderService(shared retries(timeouts(latencyinjector(user.NewUserService(plugins/simplenosqldb.NewSimpleNoSQLDB(), plugins/simplecache.NewSimpleCache(), shared plugins/mysql.NewMySqlDB(@order_db.dial_addr, "order_db", "root", "pass")), "10ms"), "5s")), shared ot(ot(latencyinjector(mail.NewMail("a@x", "smtp"), "20ms"), shared plugins/zipkin.NewZipkinTracer(@trace.dial_addr)), shared plugins/zipkin.NewZipkinTracer(@trace.dial_addr)), grpc(@mail_b.grpc.dial_addr), shared plugins/mysql.NewMySqlDB(@order_db.dial_addr, "order_db", "root", "pass"), plugins/simplequeue.NewSimpleQueue())`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what:   "a modifier that is added to a service behind its server",
			refuse: "a modifier of a service around its server",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("http.Deploy", "mail_a")
				a.do("latency.AddFixed", "mail_a", "30ms")
				a.do("goproc.CreateProcess", "shop", []string{"mail_a"})
			},
			build: []string{"shop"},
		},
		{
			what: "services in a process of the same container",
			do: func(a *app) {
				for _, s := range []string{"a", "b", "c"} {
					n := "mail_" + s + "_service"
					a.of("workflow.Service", "mail.Mail", n, []string{s + "@x", s})
					a.do("thrift.Deploy", n)
					a.do("goproc.Deploy", n)
				}
				a.do("linuxcontainer.CreateContainer", "box", []string{"mail_b_proc", "mail_a_proc"})
				a.do("linuxcontainer.Deploy", "mail_c_proc")
			},
			build: []string{"box", "mail_c_proc_ctr"},
			want: map[string][]string{
				"docker (containers)": {
					`box from box`,
					`mail_c_proc_ctr from mail_c_proc_ctr`,
				},
				"docker/box/mail_a_proc": {
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
					`thrift(mail.NewMail("a@x", "a"), @mail_a_service.thrift.bind_addr)`,
				},
				"docker/box/mail_b_proc": {
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
					`thrift(mail.NewMail("b@x", "b"), @mail_b_service.thrift.bind_addr)`,
				},
				"docker/mail_c_proc_ctr/mail_c_proc": {
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
					`thrift(mail.NewMail("c@x", "c"), @mail_c_service.thrift.bind_addr)`,
				},
			},
		},
		{
			what: "a server that is built where it is first needed",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("latency.AddFixed", "mail_a", "30ms")
				a.do("healthchecker.AddHealthCheckAPI", "mail_a")
				a.do("grpc.Deploy", "mail_a")
				a.do("goproc.CreateClientProcess", "p", []string{"mail_a"})
			},
			build: []string{"p"},
			want: map[string][]string{
				"linux/p": {
					`grpc(@mail_a.grpc.dial_addr)`,
					`grpc(healthcheck(latencyinjector(mail.NewMail("a@x", "smtp"), "30ms")), @mail_a.grpc.bind_addr)`,
				},
			},
		},
		{
			what: "pods of a kubernetes application",
			do: func(a *app) {
				a.do("redis.Container", "cache")
				a.do("mongodb.Container", "user_db")
				a.of("workflow.Service", "user.UserService", "user_service", []string{"user_db", "cache", "north"})
				a.do("grpc.Deploy", "user_service")
				a.of("workflow.Service", "mail.Mail", "mail_service", []string{"a@x", "smtp"})
				a.do("grpc.Deploy", "mail_service")
				a.of("workflow.Service", "front.Front", "front_service", []string{"user_service", "mail_service"})
				a.do("http.Deploy", "front_service")
				for _, s := range []string{"user", "mail", "front"} {
					a.do("goproc.Deploy", s+"_service")
					a.do("linuxcontainer.Deploy", s+"_service")
				}
				a.do("kubernetes.NewApplication", "shop", "registry:5000/x", []string{"user_ctr"})
				a.do("kubernetes.AddContainerToApplication", "shop_kubernetes", "registry:5000/x", "mail_ctr")
				a.do("kubernetes.AddPodToApplication", "shop_kubernetes", "front_pod", "registry:5000/y", []string{"front_ctr", "cache"})
				a.do("kubernetes/kubepod.AddContainerToPod", "front_pod", "user_db")
			},
			build: []string{"shop_kubernetes"},
			want: map[string][]string{
				"shop_kubernetes (pods)": {
					`front-pod: cache-ctr, front-ctr from registry:5000/y/front_ctr, user-db-ctr`,
					`mail-ctr-pod: mail-ctr from registry:5000/x/mail_ctr`,
					`user-ctr-pod: user-ctr from registry:5000/x/user_ctr`,
				},
				"shop_kubernetes/front_ctr/front_proc": {
					`http(front.NewFront(grpc(@user_service.grpc.dial_addr), grpc(@mail_service.grpc.dial_addr)), @front_service.http.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
				"shop_kubernetes/mail_ctr/mail_proc": {
					`grpc(mail.NewMail("a@x", "smtp"), @mail_service.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
				"shop_kubernetes/user_ctr/user_proc": {
					`grpc(user.NewUserService(plugins/mongodb.NewMongoDB(@user_db.dial_addr), plugins/redis.NewRedisCacheClient(@cache.dial_addr), "north"), @user_service.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "a pod of its own",
			do: func(a *app) {
				a.of("workflow.Service", "front.Alone", "front_service", []string{})
				a.do("http.Deploy", "front_service")
				a.do("goproc.Deploy", "front_service")
				a.do("linuxcontainer.Deploy", "front_service")
				a.do("redis.Container", "cache")
				a.do("kubernetes/kubepod.NewKubePod", "pod", "registry:5000/x", []string{"front_ctr", "cache"})
			},
			build: []string{"pod"},
			want: map[string][]string{
				"pod (pods)": {
					`pod: cache-ctr, front-ctr from registry:5000/x/front_ctr`,
				},
				"pod/front_ctr/front_proc": {
					`http(front.NewAlone(), @front_service.http.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "replicas behind a load balancer",
			do: func(a *app) {
				r := a.of("replication.Replicate", "mail.Mail", "mail_service", 3, []string{"a@x", "smtp"}).(peval.Tuple)
				for i := 0; i < 3; i++ {
					n := peval.Str(r[0].(peval.Slice)[i])
					a.do("grpc.Deploy", n)
					a.do("goproc.CreateProcess", n+"_p", []string{n})
				}
				a.of("workflow.Service", "mail.Mail", "other", []string{"b@x", "smtp"})
				a.of("workflow.Service", "mail.Mail", "third", []string{"c@x", "smtp"})
				lb := a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "mixed", []string{"third", "mail_service_1", "other"})
				a.do("simple.NoSQLDB", "user_db")
				a.do("simple.Cache", "user_cache")
				a.do("simple.RelationalDB", "order_db")
				a.do("simple.Queue", "order_queue")
				a.of("workflow.Service", "user.UserService", "user_service", []string{"user_db", "user_cache", "north"})
				a.of("workflow.Service", "order.OrderService", "order_service", []string{"user_service", peval.Str(r[1]), peval.Str(lb), "order_db", "order_queue"})
				a.do("goproc.CreateProcess", "shop", []string{"order_service"})
			},
			build: []string{"mail_service_0_p", "mail_service_1_p", "mail_service_2_p", "shop"},
			want: map[string][]string{
				"linux/mail_service_0_p": {
					`grpc(mail.NewMail("a@x", "smtp"), @mail_service_0.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
				"linux/mail_service_1_p": {
					`grpc(mail.NewMail("a@x", "smtp"), @mail_service_1.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
				"linux/mail_service_2_p": {
					`grpc(mail.NewMail("a@x", "smtp"), @mail_service_2.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
				"linux/shop": {
					`order.NewOrderService(user.NewUserService(plugins/simplenosqldb.NewSimpleNoSQLDB(), plugins/simplecache.NewSimpleCache(), "north"), lb(grpc(@mail_service_0.grpc.dial_addr), shared grpc(@mail_service_1.grpc.dial_addr), grpc(@mail_service_2.grpc.dial_addr)), lb(mail.NewMail("c@x", "smtp"), shared grpc(@mail_service_1.grpc.dial_addr), mail.NewMail("b@x", "smtp")), plugins/sqlitereldb.NewSqliteRelDB(), plugins/simplequeue.NewSimpleQueue())`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "a workload generator",
			do: func(a *app) {
				a.of("workflow.Service", "front.Alone", "front_service", []string{})
				a.do("http.Deploy", "front_service")
				a.do("goproc.Deploy", "front_service")
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.of("workload.Generator", "load.Load", "gen", []string{"front_service", "mail_a", "high"})
			},
			build: []string{"front_proc", "gen"},
			want: map[string][]string{
				"gen/gen_proc": {
					`load.NewLoad(http(@front_service.http.dial_addr), mail.NewMail("a@x", "smtp"), "high")`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
				"linux/front_proc": {
					`http(front.NewAlone(), @front_service.http.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "loggers and metric collectors",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.of("workflow.Service", "mail.Mail", "mail_b", []string{"b@x", "smtp"})
				a.of("workflow.Service", "mail.Mail", "mail_c", []string{"c@x", "smtp"})
				a.of("workflow.Service", "mail.Mail", "mail_d", []string{"d@x", "smtp"})
				for _, s := range []string{"a", "b", "c", "d"} {
					a.do("goproc.CreateProcess", "p"+s, []string{"mail_" + s})
				}
				a.do("goproc.SetMetricPrintFrequency", "pa", "3s")
				a.do("goproc.SetMetricPrintFrequency", "pa", "9s")
				a.do("goproc.SetMetricPrintFrequency", "pb", "1s")
				a.do("opentelemetry.Logger", "pa")
				a.do("govector.Logger", "pa")
				l := a.do("govector.Logger", "pb")
				a.do("opentelemetry.Logger", "pb")
				a.do("goproc.SetLogger", "pc", l)
				a.do("goproc.SetMetricCollector", "pc", "pa.stdoutmetriccollector")
			},
			build: []string{"pa", "pb", "pc", "pd"},
			want: map[string][]string{
				"linux/pa": {
					`mail.NewMail("a@x", "smtp")`,
					`plugins/govector.NewGoVecLogger("pa.goveclogger")`,
					`plugins/opentelemetry.NewStdoutMetricCollector("9s")`,
				},
				"linux/pb": {
					`mail.NewMail("b@x", "smtp")`,
					`plugins/opentelemetry.NewOTTraceLogger()`,
					`plugins/opentelemetry.NewStdoutMetricCollector("1s")`,
				},
				"linux/pc": {
					`mail.NewMail("c@x", "smtp")`,
					`plugins/govector.NewGoVecLogger("pb.goveclogger")`,
					`plugins/opentelemetry.NewStdoutMetricCollector("9s")`,
				},
				"linux/pd": {
					`mail.NewMail("d@x", "smtp")`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "faults, delays, kinds of retries and vector clocks",
			do: func(a *app) {
				a.do("jaeger.Collector", "trace")
				for i, s := range []string{"a", "b", "c", "d", "e", "f"} {
					a.of("workflow.Service", "mail.Mail", "mail_"+s, []string{s + "@x", "smtp"})
					switch i {
					case 0:
						a.do("retries.AddRetriesRetryRateLimit", "mail_a", 5, 50)
						a.do("faultinjector.AddProbabilisticFailures", "mail_a", 10)
					case 1:
						a.do("retries.AddRetriesTokenBucket", "mail_b", 10.0, 1.0, 0.5)
						a.do("faultinjector.AddRandomDelay", "mail_b", 100)
					case 2:
						a.do("retries.AddRetriesWithExponentialBackoff", "mail_c", "10ms", "1s", true)
						a.do("govector.Instrument", "mail_c")
					case 3:
						a.do("retries.AddRetriesWithFixedDelay", "mail_d", 6, "20ms")
						a.do("opentelemetry.InstrumentWithoutClientSpans", "mail_d", "trace")
					case 4:
						a.do("retries.AddRetriesWithTimeouts", "mail_e", 8, "30ms")
						a.do("opentelemetry.Instrument", "mail_e", "trace")
					}
					a.do("grpc.Deploy", "mail_"+s)
				}
				a.do("goproc.CreateProcess", "mails", []string{"mail_a", "mail_b", "mail_c", "mail_d", "mail_e"})
				a.do("goproc.CreateClientProcess", "client", []string{"mail_e", "mail_a", "mail_b", "mail_c", "mail_d"})
			},
			build: []string{"mails", "client"},
			want: map[string][]string{
				"docker (containers)": {
					`trace_ctr of an image`,
				},
				"linux/client": {
					`retries(govec(grpc(@mail_c.grpc.dial_addr)))`,
					`retries(grpc(@mail_a.grpc.dial_addr))`,
					`retries(grpc(@mail_b.grpc.dial_addr))`,
					`retries(ot(grpc(@mail_d.grpc.dial_addr), shared plugins/jaeger.NewJaegerTracer(@trace.dial_addr)))`,
					`retries(timeouts(ot(grpc(@mail_e.grpc.dial_addr), shared plugins/jaeger.NewJaegerTracer(@trace.dial_addr)), "30ms"))`,
				},
				"linux/mails": {
					`grpc(delay(mail.NewMail("b@x", "smtp"), "100"), @mail_b.grpc.bind_addr)`,
					`grpc(govec(mail.NewMail("c@x", "smtp")), @mail_c.grpc.bind_addr)`,
					`grpc(ot(mail.NewMail("d@x", "smtp"), shared plugins/jaeger.NewJaegerTracer(@trace.dial_addr)), @mail_d.grpc.bind_addr)`,
					`grpc(ot(mail.NewMail("e@x", "smtp"), shared plugins/jaeger.NewJaegerTracer(@trace.dial_addr)), @mail_e.grpc.bind_addr)`,
					`grpc(prob_failure(mail.NewMail("a@x", "smtp"), "10"), @mail_a.grpc.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what: "tests of two services",
			do: func(a *app) {
				a.of("workflow.Service", "front.Alone", "front_service", []string{})
				a.do("http.Deploy", "front_service")
				a.do("goproc.Deploy", "front_service")
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("gotests.Test", []string{"front_service"})
				a.do("gotests.Test", []string{"mail_a"})
			},
			build: []string{"front_proc", "gotests"},
			want: map[string][]string{
				"gotests/testclients/clients": {
					`http(@front_service.http.dial_addr)`,
					`mail.NewMail("a@x", "smtp")`,
				},
				"linux/front_proc": {
					`http(front.NewAlone(), @front_service.http.bind_addr)`,
					`plugins/opentelemetry.NewStdoutMetricCollector("")`,
					`plugins/slogger.NewSLogger()`,
				},
			},
		},
		{
			what:   "a service with too few arguments",
			refuse: "a service that is given one argument less than its constructor takes",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x"})
				a.do("goproc.CreateProcess", "p", []string{"mail_a"})
			},
			build: []string{"p"},
		},
		{
			what:   "a service with too many arguments",
			refuse: "a service that is given one argument more than its constructor takes",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp", "fast"})
				a.do("goproc.CreateProcess", "p", []string{"mail_a"})
			},
			build: []string{"p"},
		},
		{
			what:   "an argument that is not defined",
			refuse: "a service that uses a service which is not defined",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.of("workflow.Service", "front.Front", "front_service", []string{"user_service", "mail_a"})
				a.do("goproc.CreateProcess", "p", []string{"front_service"})
			},
			build: []string{"p"},
		},
		{
			what:   "a child that is not defined",
			refuse: "a process with a service that is not defined",
			do:     func(a *app) { a.do("goproc.CreateProcess", "p", []string{"mail_a"}) },
			build:  []string{"p"},
		},
		{
			what:   "a built node that is not defined",
			refuse: "an application of a node that is not defined",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("goproc.CreateProcess", "p", []string{"mail_a"})
			},
			build: []string{"p", "q"},
		},
		{
			what:   "a modifier of nothing",
			refuse: "a modifier of a service that is not defined",
			do: func(a *app) {
				a.do("retries.AddRetries", "mail_b", 3)
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("goproc.CreateProcess", "p", []string{"mail_a"})
			},
			build: []string{"p"},
		},
		{
			what:   "a service that is needed in the process of its client",
			refuse: "services of two processes that need each other in the process of the other",
			do: func(a *app) {
				a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "x", []string{"y_lb"})
				a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "y", []string{"z_lb"})
				a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "z", []string{"x_lb"})
				a.do("goproc.CreateProcess", "p", []string{"x_lb"})
				a.do("goproc.CreateProcess", "q", []string{"y_lb"})
			},
			build: []string{"q", "p"},
		},
		{
			what:   "a service of two processes",
			refuse: "one service that two processes use without a network between them",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "x", []string{"mail_a"})
				a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "y", []string{"mail_a"})
				a.do("goproc.CreateProcess", "p", []string{"x_lb"})
				a.do("goproc.CreateProcess", "q", []string{"y_lb"})
			},
			build: []string{"q", "p"},
		},
		{
			what:   "a tracer that is no collector",
			refuse: "tracing with a collector that is a service",
			do: func(a *app) {
				a.of("workflow.Service", "mail.Mail", "mail_b", []string{"a@x", "smtp"})
				a.of("workflow.Service", "mail.Mail", "mail_a", []string{"a@x", "smtp"})
				a.do("opentelemetry.Instrument", "mail_a", "mail_b")
				a.do("goproc.CreateProcess", "p", []string{"mail_a"})
			},
			build: []string{"p"},
		},
		{
			what:   "services that need each other",
			refuse: "a circle of services in one process",
			do: func(a *app) {
				a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "x", []string{"y_lb"})
				a.of("loadbalancer.CreateLoadBalancer", "mail.Mail", "y", []string{"x_lb"})
				a.do("goproc.CreateProcess", "p", []string{"x_lb"})
			},
			build: []string{"p"},
		},
	}
}
