package e2e

import (
	"net"

	"github.com/pion/logging"
	"github.com/pion/turn/v2"
)

// TurnServer is an ICE server
type TurnServer struct {
	Addr       string
	User, Pass string
	srv        *turn.Server
}

func NewTurnServer(user, pass string) (*TurnServer, error) {
	c, err := net.ListenPacket("udp4", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	t := &TurnServer{Addr: c.LocalAddr().String(), User: user, Pass: pass}
	lf := logging.NewDefaultLoggerFactory()
	lf.DefaultLogLevel = logging.LogLevelDisabled
	t.srv, err = turn.NewServer(turn.ServerConfig{
		Realm: "verif", LoggerFactory: lf,
		AuthHandler: func(u, realm string, _ net.Addr) ([]byte, bool) {
			return turn.GenerateAuthKey(user, realm, pass), u == user
		},
		PacketConnConfigs: []turn.PacketConnConfig{{PacketConn: c, RelayAddressGenerator: &turn.RelayAddressGeneratorStatic{RelayAddress: net.ParseIP("127.0.0.1"), Address: "127.0.0.1"}}},
	})
	if err != nil {
		c.Close()
		return nil, err
	}
	return t, nil
}

func (t *TurnServer) Close() { t.srv.Close() }
