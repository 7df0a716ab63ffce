// Stand-ins for @gear-js/api, sails-js and @polkadot/types, as far as the demonstrations need them.
export class GearApi {}
export class GearKeyring {}
export class ProgramMetadata {}
export const HexString = undefined, MessageQueuedData = undefined, UserMessageSent = undefined
export const decodeAddress = a => a
export const ZERO_ADDRESS = '0x' + '00'.repeat(32)
export const getServiceNamePrefix = p => globalThis.prefix(p)[0]
export const getFnNamePrefix = p => globalThis.prefix(p)[1]
export class TypeRegistry {
  setKnownTypes() {}
  register() {}
  createType(type, value) {
    return globalThis.createType(type, value)
  }
}
export class TransactionBuilder {
  constructor(api, registry, what, payload, payloadType, responseType, programId) {
    Object.assign(this, { api, registry, what, payload, payloadType, responseType, programId })
    this.sent = { payload, programId }
  }
  get _tx() {
    return this
  }
  withGas(gas) {
    this.gas = gas
    return this
  }
  withValue(value) {
    this.value = value
    return this
  }
  withAccount(account) {
    this.account = account
    return this
  }
  async signAndSend() {
    return { msgId: '0x01', blockHash: '0x02', txHash: '0x03', response: async () => globalThis.answer(this) }
  }
}
