// Code generated by tools/mkrouters.py. DO NOT EDIT.

package gentable

import (
	"google.golang.org/grpc"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/router"
	gaccesspb "github.com/smart-core-os/sc-golang/verifsim/gen/accesspb"
	gairqualitysensorpb "github.com/smart-core-os/sc-golang/verifsim/gen/airqualitysensorpb"
	gairtemperaturepb "github.com/smart-core-os/sc-golang/verifsim/gen/airtemperaturepb"
	gbookingpb "github.com/smart-core-os/sc-golang/verifsim/gen/bookingpb"
	gbrightnesssensorpb "github.com/smart-core-os/sc-golang/verifsim/gen/brightnesssensorpb"
	gchannelpb "github.com/smart-core-os/sc-golang/verifsim/gen/channelpb"
	gcolorpb "github.com/smart-core-os/sc-golang/verifsim/gen/colorpb"
	gcountpb "github.com/smart-core-os/sc-golang/verifsim/gen/countpb"
	gelectricpb "github.com/smart-core-os/sc-golang/verifsim/gen/electricpb"
	gemergencypb "github.com/smart-core-os/sc-golang/verifsim/gen/emergencypb"
	genergystoragepb "github.com/smart-core-os/sc-golang/verifsim/gen/energystoragepb"
	genterleavesensorpb "github.com/smart-core-os/sc-golang/verifsim/gen/enterleavesensorpb"
	gextendretractpb "github.com/smart-core-os/sc-golang/verifsim/gen/extendretractpb"
	gfanspeedpb "github.com/smart-core-os/sc-golang/verifsim/gen/fanspeedpb"
	ghailpb "github.com/smart-core-os/sc-golang/verifsim/gen/hailpb"
	ginputselectpb "github.com/smart-core-os/sc-golang/verifsim/gen/inputselectpb"
	glightpb "github.com/smart-core-os/sc-golang/verifsim/gen/lightpb"
	glockunlockpb "github.com/smart-core-os/sc-golang/verifsim/gen/lockunlockpb"
	gmetadatapb "github.com/smart-core-os/sc-golang/verifsim/gen/metadatapb"
	gmeterpb "github.com/smart-core-os/sc-golang/verifsim/gen/meterpb"
	gmicrophonepb "github.com/smart-core-os/sc-golang/verifsim/gen/microphonepb"
	gmodepb "github.com/smart-core-os/sc-golang/verifsim/gen/modepb"
	gmotionsensorpb "github.com/smart-core-os/sc-golang/verifsim/gen/motionsensorpb"
	goccupancysensorpb "github.com/smart-core-os/sc-golang/verifsim/gen/occupancysensorpb"
	gonoffpb "github.com/smart-core-os/sc-golang/verifsim/gen/onoffpb"
	gopenclosepb "github.com/smart-core-os/sc-golang/verifsim/gen/openclosepb"
	gparentpb "github.com/smart-core-os/sc-golang/verifsim/gen/parentpb"
	gpresspb "github.com/smart-core-os/sc-golang/verifsim/gen/presspb"
	gptzpb "github.com/smart-core-os/sc-golang/verifsim/gen/ptzpb"
	gpublicationpb "github.com/smart-core-os/sc-golang/verifsim/gen/publicationpb"
	gspeakerpb "github.com/smart-core-os/sc-golang/verifsim/gen/speakerpb"
	gtemperaturepb "github.com/smart-core-os/sc-golang/verifsim/gen/temperaturepb"
	gvendingpb "github.com/smart-core-os/sc-golang/verifsim/gen/vendingpb"
	gwastepb "github.com/smart-core-os/sc-golang/verifsim/gen/wastepb"
	"github.com/smart-core-os/sc-golang/verifsim/props"
)

func init() {
	props.RegisterRouters([]props.RouterCase{
		{
			Name: "generated accesspb.ApiRouter", Service: &traits.AccessApi_ServiceDesc, Client: "AccessApiClient",
			New:       func(opts ...router.Option) router.Router { return gaccesspb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAccessApiClient(cc) },
			Wrap:      func(srv any) any { return gaccesspb.WrapApi(srv.(traits.AccessApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gaccesspb.WithAccessApiClientFactory(func(name string) (traits.AccessApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AccessApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated airqualitysensorpb.ApiRouter", Service: &traits.AirQualitySensorApi_ServiceDesc, Client: "AirQualitySensorApiClient",
			New:       func(opts ...router.Option) router.Router { return gairqualitysensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorApiClient(cc) },
			Wrap:      func(srv any) any { return gairqualitysensorpb.WrapApi(srv.(traits.AirQualitySensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gairqualitysensorpb.WithAirQualitySensorApiClientFactory(func(name string) (traits.AirQualitySensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirQualitySensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated airqualitysensorpb.InfoRouter", Service: &traits.AirQualitySensorInfo_ServiceDesc, Client: "AirQualitySensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return gairqualitysensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorInfoClient(cc) },
			Wrap:      func(srv any) any { return gairqualitysensorpb.WrapInfo(srv.(traits.AirQualitySensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gairqualitysensorpb.WithAirQualitySensorInfoClientFactory(func(name string) (traits.AirQualitySensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirQualitySensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated airtemperaturepb.ApiRouter", Service: &traits.AirTemperatureApi_ServiceDesc, Client: "AirTemperatureApiClient",
			New:       func(opts ...router.Option) router.Router { return gairtemperaturepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureApiClient(cc) },
			Wrap:      func(srv any) any { return gairtemperaturepb.WrapApi(srv.(traits.AirTemperatureApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gairtemperaturepb.WithAirTemperatureApiClientFactory(func(name string) (traits.AirTemperatureApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirTemperatureApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated airtemperaturepb.InfoRouter", Service: &traits.AirTemperatureInfo_ServiceDesc, Client: "AirTemperatureInfoClient",
			New:       func(opts ...router.Option) router.Router { return gairtemperaturepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureInfoClient(cc) },
			Wrap:      func(srv any) any { return gairtemperaturepb.WrapInfo(srv.(traits.AirTemperatureInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gairtemperaturepb.WithAirTemperatureInfoClientFactory(func(name string) (traits.AirTemperatureInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirTemperatureInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated bookingpb.ApiRouter", Service: &traits.BookingApi_ServiceDesc, Client: "BookingApiClient",
			New:       func(opts ...router.Option) router.Router { return gbookingpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBookingApiClient(cc) },
			Wrap:      func(srv any) any { return gbookingpb.WrapApi(srv.(traits.BookingApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gbookingpb.WithBookingApiClientFactory(func(name string) (traits.BookingApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BookingApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated bookingpb.InfoRouter", Service: &traits.BookingInfo_ServiceDesc, Client: "BookingInfoClient",
			New:       func(opts ...router.Option) router.Router { return gbookingpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBookingInfoClient(cc) },
			Wrap:      func(srv any) any { return gbookingpb.WrapInfo(srv.(traits.BookingInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gbookingpb.WithBookingInfoClientFactory(func(name string) (traits.BookingInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BookingInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated brightnesssensorpb.ApiRouter", Service: &traits.BrightnessSensorApi_ServiceDesc, Client: "BrightnessSensorApiClient",
			New:       func(opts ...router.Option) router.Router { return gbrightnesssensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorApiClient(cc) },
			Wrap:      func(srv any) any { return gbrightnesssensorpb.WrapApi(srv.(traits.BrightnessSensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gbrightnesssensorpb.WithBrightnessSensorApiClientFactory(func(name string) (traits.BrightnessSensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BrightnessSensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated brightnesssensorpb.InfoRouter", Service: &traits.BrightnessSensorInfo_ServiceDesc, Client: "BrightnessSensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return gbrightnesssensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorInfoClient(cc) },
			Wrap:      func(srv any) any { return gbrightnesssensorpb.WrapInfo(srv.(traits.BrightnessSensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gbrightnesssensorpb.WithBrightnessSensorInfoClientFactory(func(name string) (traits.BrightnessSensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BrightnessSensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated channelpb.ApiRouter", Service: &traits.ChannelApi_ServiceDesc, Client: "ChannelApiClient",
			New:       func(opts ...router.Option) router.Router { return gchannelpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewChannelApiClient(cc) },
			Wrap:      func(srv any) any { return gchannelpb.WrapApi(srv.(traits.ChannelApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gchannelpb.WithChannelApiClientFactory(func(name string) (traits.ChannelApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ChannelApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated channelpb.InfoRouter", Service: &traits.ChannelInfo_ServiceDesc, Client: "ChannelInfoClient",
			New:       func(opts ...router.Option) router.Router { return gchannelpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewChannelInfoClient(cc) },
			Wrap:      func(srv any) any { return gchannelpb.WrapInfo(srv.(traits.ChannelInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gchannelpb.WithChannelInfoClientFactory(func(name string) (traits.ChannelInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ChannelInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated colorpb.ApiRouter", Service: &traits.ColorApi_ServiceDesc, Client: "ColorApiClient",
			New:       func(opts ...router.Option) router.Router { return gcolorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewColorApiClient(cc) },
			Wrap:      func(srv any) any { return gcolorpb.WrapApi(srv.(traits.ColorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gcolorpb.WithColorApiClientFactory(func(name string) (traits.ColorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ColorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated colorpb.InfoRouter", Service: &traits.ColorInfo_ServiceDesc, Client: "ColorInfoClient",
			New:       func(opts ...router.Option) router.Router { return gcolorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewColorInfoClient(cc) },
			Wrap:      func(srv any) any { return gcolorpb.WrapInfo(srv.(traits.ColorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gcolorpb.WithColorInfoClientFactory(func(name string) (traits.ColorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ColorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated countpb.ApiRouter", Service: &traits.CountApi_ServiceDesc, Client: "CountApiClient",
			New:       func(opts ...router.Option) router.Router { return gcountpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewCountApiClient(cc) },
			Wrap:      func(srv any) any { return gcountpb.WrapApi(srv.(traits.CountApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gcountpb.WithCountApiClientFactory(func(name string) (traits.CountApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.CountApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated countpb.InfoRouter", Service: &traits.CountInfo_ServiceDesc, Client: "CountInfoClient",
			New:       func(opts ...router.Option) router.Router { return gcountpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewCountInfoClient(cc) },
			Wrap:      func(srv any) any { return gcountpb.WrapInfo(srv.(traits.CountInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gcountpb.WithCountInfoClientFactory(func(name string) (traits.CountInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.CountInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated electricpb.ApiRouter", Service: &traits.ElectricApi_ServiceDesc, Client: "ElectricApiClient",
			New:       func(opts ...router.Option) router.Router { return gelectricpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewElectricApiClient(cc) },
			Wrap:      func(srv any) any { return gelectricpb.WrapApi(srv.(traits.ElectricApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gelectricpb.WithElectricApiClientFactory(func(name string) (traits.ElectricApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ElectricApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated electricpb.InfoRouter", Service: &traits.ElectricInfo_ServiceDesc, Client: "ElectricInfoClient",
			New:       func(opts ...router.Option) router.Router { return gelectricpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewElectricInfoClient(cc) },
			Wrap:      func(srv any) any { return gelectricpb.WrapInfo(srv.(traits.ElectricInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gelectricpb.WithElectricInfoClientFactory(func(name string) (traits.ElectricInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ElectricInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated emergencypb.ApiRouter", Service: &traits.EmergencyApi_ServiceDesc, Client: "EmergencyApiClient",
			New:       func(opts ...router.Option) router.Router { return gemergencypb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyApiClient(cc) },
			Wrap:      func(srv any) any { return gemergencypb.WrapApi(srv.(traits.EmergencyApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gemergencypb.WithEmergencyApiClientFactory(func(name string) (traits.EmergencyApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EmergencyApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated emergencypb.InfoRouter", Service: &traits.EmergencyInfo_ServiceDesc, Client: "EmergencyInfoClient",
			New:       func(opts ...router.Option) router.Router { return gemergencypb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyInfoClient(cc) },
			Wrap:      func(srv any) any { return gemergencypb.WrapInfo(srv.(traits.EmergencyInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gemergencypb.WithEmergencyInfoClientFactory(func(name string) (traits.EmergencyInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EmergencyInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated energystoragepb.ApiRouter", Service: &traits.EnergyStorageApi_ServiceDesc, Client: "EnergyStorageApiClient",
			New:       func(opts ...router.Option) router.Router { return genergystoragepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageApiClient(cc) },
			Wrap:      func(srv any) any { return genergystoragepb.WrapApi(srv.(traits.EnergyStorageApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return genergystoragepb.WithEnergyStorageApiClientFactory(func(name string) (traits.EnergyStorageApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnergyStorageApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated energystoragepb.InfoRouter", Service: &traits.EnergyStorageInfo_ServiceDesc, Client: "EnergyStorageInfoClient",
			New:       func(opts ...router.Option) router.Router { return genergystoragepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageInfoClient(cc) },
			Wrap:      func(srv any) any { return genergystoragepb.WrapInfo(srv.(traits.EnergyStorageInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return genergystoragepb.WithEnergyStorageInfoClientFactory(func(name string) (traits.EnergyStorageInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnergyStorageInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated enterleavesensorpb.ApiRouter", Service: &traits.EnterLeaveSensorApi_ServiceDesc, Client: "EnterLeaveSensorApiClient",
			New:       func(opts ...router.Option) router.Router { return genterleavesensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorApiClient(cc) },
			Wrap:      func(srv any) any { return genterleavesensorpb.WrapApi(srv.(traits.EnterLeaveSensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return genterleavesensorpb.WithEnterLeaveSensorApiClientFactory(func(name string) (traits.EnterLeaveSensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnterLeaveSensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated enterleavesensorpb.InfoRouter", Service: &traits.EnterLeaveSensorInfo_ServiceDesc, Client: "EnterLeaveSensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return genterleavesensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorInfoClient(cc) },
			Wrap:      func(srv any) any { return genterleavesensorpb.WrapInfo(srv.(traits.EnterLeaveSensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return genterleavesensorpb.WithEnterLeaveSensorInfoClientFactory(func(name string) (traits.EnterLeaveSensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnterLeaveSensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated extendretractpb.ApiRouter", Service: &traits.ExtendRetractApi_ServiceDesc, Client: "ExtendRetractApiClient",
			New:       func(opts ...router.Option) router.Router { return gextendretractpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractApiClient(cc) },
			Wrap:      func(srv any) any { return gextendretractpb.WrapApi(srv.(traits.ExtendRetractApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gextendretractpb.WithExtendRetractApiClientFactory(func(name string) (traits.ExtendRetractApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ExtendRetractApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated extendretractpb.InfoRouter", Service: &traits.ExtendRetractInfo_ServiceDesc, Client: "ExtendRetractInfoClient",
			New:       func(opts ...router.Option) router.Router { return gextendretractpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractInfoClient(cc) },
			Wrap:      func(srv any) any { return gextendretractpb.WrapInfo(srv.(traits.ExtendRetractInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gextendretractpb.WithExtendRetractInfoClientFactory(func(name string) (traits.ExtendRetractInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ExtendRetractInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated fanspeedpb.ApiRouter", Service: &traits.FanSpeedApi_ServiceDesc, Client: "FanSpeedApiClient",
			New:       func(opts ...router.Option) router.Router { return gfanspeedpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedApiClient(cc) },
			Wrap:      func(srv any) any { return gfanspeedpb.WrapApi(srv.(traits.FanSpeedApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gfanspeedpb.WithFanSpeedApiClientFactory(func(name string) (traits.FanSpeedApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.FanSpeedApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated fanspeedpb.InfoRouter", Service: &traits.FanSpeedInfo_ServiceDesc, Client: "FanSpeedInfoClient",
			New:       func(opts ...router.Option) router.Router { return gfanspeedpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedInfoClient(cc) },
			Wrap:      func(srv any) any { return gfanspeedpb.WrapInfo(srv.(traits.FanSpeedInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gfanspeedpb.WithFanSpeedInfoClientFactory(func(name string) (traits.FanSpeedInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.FanSpeedInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated hailpb.ApiRouter", Service: &traits.HailApi_ServiceDesc, Client: "HailApiClient",
			New:       func(opts ...router.Option) router.Router { return ghailpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewHailApiClient(cc) },
			Wrap:      func(srv any) any { return ghailpb.WrapApi(srv.(traits.HailApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return ghailpb.WithHailApiClientFactory(func(name string) (traits.HailApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.HailApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated hailpb.InfoRouter", Service: &traits.HailInfo_ServiceDesc, Client: "HailInfoClient",
			New:       func(opts ...router.Option) router.Router { return ghailpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewHailInfoClient(cc) },
			Wrap:      func(srv any) any { return ghailpb.WrapInfo(srv.(traits.HailInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return ghailpb.WithHailInfoClientFactory(func(name string) (traits.HailInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.HailInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated inputselectpb.ApiRouter", Service: &traits.InputSelectApi_ServiceDesc, Client: "InputSelectApiClient",
			New:       func(opts ...router.Option) router.Router { return ginputselectpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectApiClient(cc) },
			Wrap:      func(srv any) any { return ginputselectpb.WrapApi(srv.(traits.InputSelectApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return ginputselectpb.WithInputSelectApiClientFactory(func(name string) (traits.InputSelectApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.InputSelectApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated inputselectpb.InfoRouter", Service: &traits.InputSelectInfo_ServiceDesc, Client: "InputSelectInfoClient",
			New:       func(opts ...router.Option) router.Router { return ginputselectpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectInfoClient(cc) },
			Wrap:      func(srv any) any { return ginputselectpb.WrapInfo(srv.(traits.InputSelectInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return ginputselectpb.WithInputSelectInfoClientFactory(func(name string) (traits.InputSelectInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.InputSelectInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated lightpb.ApiRouter", Service: &traits.LightApi_ServiceDesc, Client: "LightApiClient",
			New:       func(opts ...router.Option) router.Router { return glightpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLightApiClient(cc) },
			Wrap:      func(srv any) any { return glightpb.WrapApi(srv.(traits.LightApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return glightpb.WithLightApiClientFactory(func(name string) (traits.LightApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LightApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated lightpb.InfoRouter", Service: &traits.LightInfo_ServiceDesc, Client: "LightInfoClient",
			New:       func(opts ...router.Option) router.Router { return glightpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLightInfoClient(cc) },
			Wrap:      func(srv any) any { return glightpb.WrapInfo(srv.(traits.LightInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return glightpb.WithLightInfoClientFactory(func(name string) (traits.LightInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LightInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated lockunlockpb.ApiRouter", Service: &traits.LockUnlockApi_ServiceDesc, Client: "LockUnlockApiClient",
			New:       func(opts ...router.Option) router.Router { return glockunlockpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockApiClient(cc) },
			Wrap:      func(srv any) any { return glockunlockpb.WrapApi(srv.(traits.LockUnlockApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return glockunlockpb.WithLockUnlockApiClientFactory(func(name string) (traits.LockUnlockApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LockUnlockApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated lockunlockpb.InfoRouter", Service: &traits.LockUnlockInfo_ServiceDesc, Client: "LockUnlockInfoClient",
			New:       func(opts ...router.Option) router.Router { return glockunlockpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockInfoClient(cc) },
			Wrap:      func(srv any) any { return glockunlockpb.WrapInfo(srv.(traits.LockUnlockInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return glockunlockpb.WithLockUnlockInfoClientFactory(func(name string) (traits.LockUnlockInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LockUnlockInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated metadatapb.ApiRouter", Service: &traits.MetadataApi_ServiceDesc, Client: "MetadataApiClient",
			New:       func(opts ...router.Option) router.Router { return gmetadatapb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataApiClient(cc) },
			Wrap:      func(srv any) any { return gmetadatapb.WrapApi(srv.(traits.MetadataApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmetadatapb.WithMetadataApiClientFactory(func(name string) (traits.MetadataApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MetadataApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated metadatapb.InfoRouter", Service: &traits.MetadataInfo_ServiceDesc, Client: "MetadataInfoClient",
			New:       func(opts ...router.Option) router.Router { return gmetadatapb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataInfoClient(cc) },
			Wrap:      func(srv any) any { return gmetadatapb.WrapInfo(srv.(traits.MetadataInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmetadatapb.WithMetadataInfoClientFactory(func(name string) (traits.MetadataInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MetadataInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated meterpb.ApiRouter", Service: &traits.MeterApi_ServiceDesc, Client: "MeterApiClient",
			New:       func(opts ...router.Option) router.Router { return gmeterpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMeterApiClient(cc) },
			Wrap:      func(srv any) any { return gmeterpb.WrapApi(srv.(traits.MeterApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmeterpb.WithMeterApiClientFactory(func(name string) (traits.MeterApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MeterApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated meterpb.InfoRouter", Service: &traits.MeterInfo_ServiceDesc, Client: "MeterInfoClient",
			New:       func(opts ...router.Option) router.Router { return gmeterpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMeterInfoClient(cc) },
			Wrap:      func(srv any) any { return gmeterpb.WrapInfo(srv.(traits.MeterInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmeterpb.WithMeterInfoClientFactory(func(name string) (traits.MeterInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MeterInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated microphonepb.ApiRouter", Service: &traits.MicrophoneApi_ServiceDesc, Client: "MicrophoneApiClient",
			New:       func(opts ...router.Option) router.Router { return gmicrophonepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneApiClient(cc) },
			Wrap:      func(srv any) any { return gmicrophonepb.WrapApi(srv.(traits.MicrophoneApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmicrophonepb.WithMicrophoneApiClientFactory(func(name string) (traits.MicrophoneApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MicrophoneApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated microphonepb.InfoRouter", Service: &traits.MicrophoneInfo_ServiceDesc, Client: "MicrophoneInfoClient",
			New:       func(opts ...router.Option) router.Router { return gmicrophonepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneInfoClient(cc) },
			Wrap:      func(srv any) any { return gmicrophonepb.WrapInfo(srv.(traits.MicrophoneInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmicrophonepb.WithMicrophoneInfoClientFactory(func(name string) (traits.MicrophoneInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MicrophoneInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated modepb.ApiRouter", Service: &traits.ModeApi_ServiceDesc, Client: "ModeApiClient",
			New:       func(opts ...router.Option) router.Router { return gmodepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewModeApiClient(cc) },
			Wrap:      func(srv any) any { return gmodepb.WrapApi(srv.(traits.ModeApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmodepb.WithModeApiClientFactory(func(name string) (traits.ModeApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ModeApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated modepb.InfoRouter", Service: &traits.ModeInfo_ServiceDesc, Client: "ModeInfoClient",
			New:       func(opts ...router.Option) router.Router { return gmodepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewModeInfoClient(cc) },
			Wrap:      func(srv any) any { return gmodepb.WrapInfo(srv.(traits.ModeInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmodepb.WithModeInfoClientFactory(func(name string) (traits.ModeInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ModeInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated motionsensorpb.ApiRouter", Service: &traits.MotionSensorApi_ServiceDesc, Client: "MotionSensorApiClient",
			New:       func(opts ...router.Option) router.Router { return gmotionsensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorApiClient(cc) },
			Wrap:      func(srv any) any { return gmotionsensorpb.WrapApi(srv.(traits.MotionSensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmotionsensorpb.WithMotionSensorApiClientFactory(func(name string) (traits.MotionSensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MotionSensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated motionsensorpb.SensorInfoRouter", Service: &traits.MotionSensorSensorInfo_ServiceDesc, Client: "MotionSensorSensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return gmotionsensorpb.NewSensorInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorSensorInfoClient(cc) },
			Wrap:      func(srv any) any { return gmotionsensorpb.WrapSensorInfo(srv.(traits.MotionSensorSensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gmotionsensorpb.WithMotionSensorSensorInfoClientFactory(func(name string) (traits.MotionSensorSensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MotionSensorSensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated occupancysensorpb.ApiRouter", Service: &traits.OccupancySensorApi_ServiceDesc, Client: "OccupancySensorApiClient",
			New:       func(opts ...router.Option) router.Router { return goccupancysensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorApiClient(cc) },
			Wrap:      func(srv any) any { return goccupancysensorpb.WrapApi(srv.(traits.OccupancySensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return goccupancysensorpb.WithOccupancySensorApiClientFactory(func(name string) (traits.OccupancySensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OccupancySensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated occupancysensorpb.InfoRouter", Service: &traits.OccupancySensorInfo_ServiceDesc, Client: "OccupancySensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return goccupancysensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorInfoClient(cc) },
			Wrap:      func(srv any) any { return goccupancysensorpb.WrapInfo(srv.(traits.OccupancySensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return goccupancysensorpb.WithOccupancySensorInfoClientFactory(func(name string) (traits.OccupancySensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OccupancySensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated onoffpb.ApiRouter", Service: &traits.OnOffApi_ServiceDesc, Client: "OnOffApiClient",
			New:       func(opts ...router.Option) router.Router { return gonoffpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOnOffApiClient(cc) },
			Wrap:      func(srv any) any { return gonoffpb.WrapApi(srv.(traits.OnOffApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gonoffpb.WithOnOffApiClientFactory(func(name string) (traits.OnOffApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OnOffApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated onoffpb.InfoRouter", Service: &traits.OnOffInfo_ServiceDesc, Client: "OnOffInfoClient",
			New:       func(opts ...router.Option) router.Router { return gonoffpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOnOffInfoClient(cc) },
			Wrap:      func(srv any) any { return gonoffpb.WrapInfo(srv.(traits.OnOffInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gonoffpb.WithOnOffInfoClientFactory(func(name string) (traits.OnOffInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OnOffInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated openclosepb.ApiRouter", Service: &traits.OpenCloseApi_ServiceDesc, Client: "OpenCloseApiClient",
			New:       func(opts ...router.Option) router.Router { return gopenclosepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseApiClient(cc) },
			Wrap:      func(srv any) any { return gopenclosepb.WrapApi(srv.(traits.OpenCloseApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gopenclosepb.WithOpenCloseApiClientFactory(func(name string) (traits.OpenCloseApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OpenCloseApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated openclosepb.InfoRouter", Service: &traits.OpenCloseInfo_ServiceDesc, Client: "OpenCloseInfoClient",
			New:       func(opts ...router.Option) router.Router { return gopenclosepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseInfoClient(cc) },
			Wrap:      func(srv any) any { return gopenclosepb.WrapInfo(srv.(traits.OpenCloseInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gopenclosepb.WithOpenCloseInfoClientFactory(func(name string) (traits.OpenCloseInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OpenCloseInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated parentpb.ApiRouter", Service: &traits.ParentApi_ServiceDesc, Client: "ParentApiClient",
			New:       func(opts ...router.Option) router.Router { return gparentpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewParentApiClient(cc) },
			Wrap:      func(srv any) any { return gparentpb.WrapApi(srv.(traits.ParentApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gparentpb.WithParentApiClientFactory(func(name string) (traits.ParentApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ParentApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated parentpb.InfoRouter", Service: &traits.ParentInfo_ServiceDesc, Client: "ParentInfoClient",
			New:       func(opts ...router.Option) router.Router { return gparentpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewParentInfoClient(cc) },
			Wrap:      func(srv any) any { return gparentpb.WrapInfo(srv.(traits.ParentInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gparentpb.WithParentInfoClientFactory(func(name string) (traits.ParentInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ParentInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated presspb.ApiRouter", Service: &traits.PressApi_ServiceDesc, Client: "PressApiClient",
			New:       func(opts ...router.Option) router.Router { return gpresspb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPressApiClient(cc) },
			Wrap:      func(srv any) any { return gpresspb.WrapApi(srv.(traits.PressApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gpresspb.WithPressApiClientFactory(func(name string) (traits.PressApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PressApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated ptzpb.ApiRouter", Service: &traits.PtzApi_ServiceDesc, Client: "PtzApiClient",
			New:       func(opts ...router.Option) router.Router { return gptzpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPtzApiClient(cc) },
			Wrap:      func(srv any) any { return gptzpb.WrapApi(srv.(traits.PtzApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gptzpb.WithPtzApiClientFactory(func(name string) (traits.PtzApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PtzApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated ptzpb.InfoRouter", Service: &traits.PtzInfo_ServiceDesc, Client: "PtzInfoClient",
			New:       func(opts ...router.Option) router.Router { return gptzpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPtzInfoClient(cc) },
			Wrap:      func(srv any) any { return gptzpb.WrapInfo(srv.(traits.PtzInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gptzpb.WithPtzInfoClientFactory(func(name string) (traits.PtzInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PtzInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated publicationpb.ApiRouter", Service: &traits.PublicationApi_ServiceDesc, Client: "PublicationApiClient",
			New:       func(opts ...router.Option) router.Router { return gpublicationpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPublicationApiClient(cc) },
			Wrap:      func(srv any) any { return gpublicationpb.WrapApi(srv.(traits.PublicationApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gpublicationpb.WithPublicationApiClientFactory(func(name string) (traits.PublicationApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PublicationApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated speakerpb.ApiRouter", Service: &traits.SpeakerApi_ServiceDesc, Client: "SpeakerApiClient",
			New:       func(opts ...router.Option) router.Router { return gspeakerpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerApiClient(cc) },
			Wrap:      func(srv any) any { return gspeakerpb.WrapApi(srv.(traits.SpeakerApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gspeakerpb.WithSpeakerApiClientFactory(func(name string) (traits.SpeakerApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.SpeakerApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated speakerpb.InfoRouter", Service: &traits.SpeakerInfo_ServiceDesc, Client: "SpeakerInfoClient",
			New:       func(opts ...router.Option) router.Router { return gspeakerpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerInfoClient(cc) },
			Wrap:      func(srv any) any { return gspeakerpb.WrapInfo(srv.(traits.SpeakerInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gspeakerpb.WithSpeakerInfoClientFactory(func(name string) (traits.SpeakerInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.SpeakerInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated temperaturepb.ApiRouter", Service: &traits.TemperatureApi_ServiceDesc, Client: "TemperatureApiClient",
			New:       func(opts ...router.Option) router.Router { return gtemperaturepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewTemperatureApiClient(cc) },
			Wrap:      func(srv any) any { return gtemperaturepb.WrapApi(srv.(traits.TemperatureApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gtemperaturepb.WithTemperatureApiClientFactory(func(name string) (traits.TemperatureApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.TemperatureApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated vendingpb.ApiRouter", Service: &traits.VendingApi_ServiceDesc, Client: "VendingApiClient",
			New:       func(opts ...router.Option) router.Router { return gvendingpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewVendingApiClient(cc) },
			Wrap:      func(srv any) any { return gvendingpb.WrapApi(srv.(traits.VendingApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gvendingpb.WithVendingApiClientFactory(func(name string) (traits.VendingApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.VendingApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated vendingpb.InfoRouter", Service: &traits.VendingInfo_ServiceDesc, Client: "VendingInfoClient",
			New:       func(opts ...router.Option) router.Router { return gvendingpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewVendingInfoClient(cc) },
			Wrap:      func(srv any) any { return gvendingpb.WrapInfo(srv.(traits.VendingInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gvendingpb.WithVendingInfoClientFactory(func(name string) (traits.VendingInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.VendingInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated wastepb.ApiRouter", Service: &traits.WasteApi_ServiceDesc, Client: "WasteApiClient",
			New:       func(opts ...router.Option) router.Router { return gwastepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewWasteApiClient(cc) },
			Wrap:      func(srv any) any { return gwastepb.WrapApi(srv.(traits.WasteApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gwastepb.WithWasteApiClientFactory(func(name string) (traits.WasteApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.WasteApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "generated wastepb.InfoRouter", Service: &traits.WasteInfo_ServiceDesc, Client: "WasteInfoClient",
			New:       func(opts ...router.Option) router.Router { return gwastepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewWasteInfoClient(cc) },
			Wrap:      func(srv any) any { return gwastepb.WrapInfo(srv.(traits.WasteInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return gwastepb.WithWasteInfoClientFactory(func(name string) (traits.WasteInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.WasteInfoClient)
					return cc, err
				})
			},
		},
	})
}
